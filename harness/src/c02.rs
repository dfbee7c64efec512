//! C02: the processing strategy decides, per observation, whether it is processed or dropped.
use crate::kit::*;
use crate::sx::*;
use metrix::processor::*;
use metrix::*;
use std::time::Duration;

// Any observation, any age, any max_age: dropped exactly if it is older than max_age and is not an
// exempted delta.
//@ bounds=one_observation_of_any_shape,_any_two_times_within_2^40_s,_any_max_age_at_all
harness!(c02_decide, {
    let now = T::any(1 << 40);
    let ts = T::any(1 << 40);
    let max_age = any_duration();
    let drop_deltas = coin();
    let shape = any_shape();
    let l = log();
    let stamp = ts.instant();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Rec::new(1, &l));
    tx.transmit(obs_of(shape, 0, stamp));
    now.go();
    let out = rx.process(
        1,
        ProcessingStrategy::DropOlderThan {
            max_age,
            drop_deltas,
        },
    );
    let in_future = now.lt(ts);
    let fresh = in_future | dur_le(now.since(ts), max_age);
    let exempt = (shape == Shape::Delta) & !drop_deltas;
    let keep = fresh | exempt;
    check!((out.processed == 1) == keep);
    check!((out.dropped == 1) == !keep);
    check!(out.processed + out.dropped == 1);
    check!(out.instruments_updated == keep as usize);
    check!(take(&l).len() == keep as usize);
    cover!(!keep);
    cover!(exempt);
    cover!(keep);
});

// The default strategy keeps deltas and everything up to 30 seconds old; ProcessAll keeps
// everything, DropAll nothing.
//@ bounds=one_observation_of_any_shape,_any_two_times_within_2^40_s
harness!(c02_named, {
    let now = T::any(1 << 40);
    let ts = T::any(1 << 40);
    let shape = any_shape();
    let which = pick(3);
    let l = log();
    let stamp = ts.instant();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Rec::new(1, &l));
    tx.transmit(obs_of(shape, 0, stamp));
    now.go();
    let strategy = match which {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::default(),
    };
    let out = rx.process(10, strategy);
    let fresh = now.lt(ts) | dur_le(now.since(ts), Duration::from_secs(30));
    let keep = (which == 0) | ((which == 2) & (fresh | (shape == Shape::Delta)));
    check!(out.processed == keep as usize);
    check!(out.dropped == !keep as usize);
    check!(take(&l).len() == keep as usize);
    cover!(which == 2 && !keep);
    cover!(which == 2 && !fresh && keep);
});

fn batch<const N: usize>() {
    let l = log();
    let now = T::any(1 << 40);
    let max_age = any_duration();
    let drop_deltas = coin();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Rec::new(1, &l));
    let mut keep = [false; N];
    for k in 0..N {
        let ts = T::any(1 << 40);
        let delta = coin();
        let stamp = ts.instant();
        tx.transmit(obs_of(if delta { Shape::Delta } else { Shape::Unsigned }, k as u8, stamp));
        keep[k] = now.lt(ts) | dur_le(now.since(ts), max_age) | (delta & !drop_deltas);
    }
    now.go();
    let strategy = ProcessingStrategy::DropOlderThan {
        max_age,
        drop_deltas,
    };
    let max = pick(N as u8 + 1);
    let out = rx.process(max, strategy);
    let n = l.lock().unwrap().len();
    check!(out.processed == n);
    check!(out.dropped == max - n);
    check!(out.instruments_updated == n);
    check!(out.observations_enqueued == N - max);
    let rest = rx.process(N, strategy);
    let got = take(&l);
    let n = got.len();
    check!(out.processed + rest.processed == n);
    check!(out.dropped + rest.dropped == N - n);
    check!(rest.observations_enqueued == 0);
    for k in 0..N {
        let here = got.iter().filter(|s| s.label == k as u8).count();
        check!(here <= 1);
        check!((here == 1) == keep[k]);
    }
    let mut ordered = true;
    for w in got.windows(2) {
        ordered &= w[0].label < w[1].label;
    }
    check!(ordered);
    cover!(n == 2);
    cover!(n == 0);
}
// A batch: every observation is decided on its own, against the time of the processing call; the
// kept ones reach the handlers in order, the others never do.
//@ bounds=3_observations_(value_or_delta)_at_any_times,_any_max_age,_in_one_call_or_two shared=batch
harness!(c02_batch, {
    batch::<3>()
});
//@ bounds=4_observations_(value_or_delta)_at_any_times,_any_max_age,_in_one_call_or_two tier=thorough shared=batch
harness!(c02_batch_more, {
    batch::<4>()
});

// Configuration messages are never dropped, whatever the strategy.
//@ bounds=the_5_kinds_of_message,_3_strategies
harness!(c02_admin, {
    use metrix::cockpit::Cockpit;
    use metrix::instruments::Panel;
    let t = T::any(1 << 30);
    let now = later(t, 1 << 30);
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    let l = log();
    t.go();
    let kind = pick(5);
    match kind {
        0 => tx.add_handler(Rec::new(1, &l)),
        1 => tx.add_cockpit(Cockpit::new("c")),
        2 => tx.remove_cockpit("c"),
        3 => tx.add_panel_to_cockpit("c", Panel::named(1u8, "p")),
        _ => tx.remove_panel_from_cockpit("c", "p"),
    };
    now.go();
    let which = pick(3);
    let out = rx.process(
        1,
        match which {
            0 => ProcessingStrategy::DropAll,
            1 => ProcessingStrategy::default(),
            _ => ProcessingStrategy::DropOlderThan {
                max_age: Duration::from_secs(0),
                drop_deltas: true,
            },
        },
    );
    check!(out.processed == 1);
    check!(out.dropped == 0);
    check!(rx.get_handlers().len() == (kind == 0) as usize);
    check!(rx.get_cockpits().len() == (kind == 1) as usize);
    cover!(kind == 4);
    cover!(which == 0);
});
