//! C15: what has been inactive for longer than its limit shows no values, and shows them again after
//! the next observation.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::{Duration, Instant};

const SPAN: u64 = 1 << 40;

/// the snapshot of something inactive or active, containing one value called `v` when active
fn expect(s: &Snapshot, idle: (u64, u32), limit: Option<Duration>, show: bool) {
    let limit_ = limit.unwrap_or(Duration::from_secs(0));
    let inactive = limit.is_some() & !dur_le(idle, limit_);
    let at_limit = limit.is_some() & dur_le(idle, limit_) & !dur_lt(idle, limit_);
    // (what holds when exactly the limit has passed is not promised)
    if !at_limit {
        let flags = limit.is_some() & show;
        if inactive {
            check!(entries(s, "v") == 0);
            check!(s.items.len() == 2 * flags as usize);
        } else {
            check!(entries(s, "v") == 1);
            check!(s.items.len() == 1 + 2 * flags as usize);
        }
        if flags {
            check!(boolean(s, "_active") == Some(!inactive));
            check!(boolean(s, "_inactive") == Some(inactive));
        }
    }
}
/// drives something through creation, observations at any times and a snapshot at any time
fn drive<X>(
    most: u8,
    make: impl Fn(bool) -> X,
    set: impl Fn(&mut X, Duration),
    hit: impl Fn(&mut X, Observation<u8>),
    look: impl Fn(&X) -> Snapshot,
    show_matters: bool,
) {
    let mut t = T::any(1 << 30);
    t.go();
    let limit = if coin() { Some(any_duration()) } else { None };
    let show = if show_matters { coin() } else { true };
    let mut x = make(show);
    let mut last = t;
    let n = pick(most + 1);
    // when the limit is set does not matter
    let set_at = if limit.is_some() { pick(2) * n } else { 0 };
    let mut i = 0;
    loop {
        if let (Some(l), true) = (limit, i == set_at) {
            set(&mut x, l);
        }
        if i == n {
            break;
        }
        i += 1;
        t = later(t, SPAN);
        t.go();
        if coin() {
            // a look in between does not count as activity
            look(&x);
        } else {
            let at = stamp(t);
            hit(&mut x, Observation::observed_one(1, at));
            last = t;
        }
    }
    t = later(t, SPAN);
    t.go();
    expect(&look(&x), t.since(last), limit, show);
    cover!(n == most as usize && limit.is_some() && set_at == n);
    cover!(n == 1 && limit.is_none());
}
/// what wakes a processor: an observation, even one that is dropped, or any other message
fn act<P: ProcessesTelemetryMessages>(tx: &TelemetryTransmitter<u8>, p: &mut P, o: Observation<u8>) {
    match pick(3) {
        0 => {
            tx.transmit(o);
            p.process(1, ProcessingStrategy::ProcessAll);
        }
        1 => {
            tx.transmit(o);
            p.process(1, ProcessingStrategy::DropAll);
        }
        _ => {
            tx.remove_cockpit("none");
            p.process(1, ProcessingStrategy::default());
        }
    }
}
fn obs(l: u8) -> Observation<u8> {
    Observation::observed_one_now(l)
}

fn panel(most: u8) {
    drive(
        most,
        |show| {
            let mut p = Panel::accept(1u8).show_activity_state(show);
            p.add_snapshooter(Put("v", 1));
            p
        },
        |p, l| p.set_inactivity_limit(l),
        |p, o| {
            p.handle_observation(&o);
        },
        |p| snap(p),
        true,
    );
}
//@ bounds=0_to_2_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit,_state_shown_or_not shared=1
harness!(c15_panel, {
    panel(2);
});
//@ bounds=0_to_3_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit,_state_shown_or_not shared=1 tier=thorough shards=4
harness!(c15_panel_more, {
    panel(3);
});
fn cockpit(most: u8) {
    drive(
        most,
        |show| {
            let mut p = Cockpit::<u8>::without_name().show_activity_state(show);
            p.add_snapshooter(Put("v", 1));
            p
        },
        |p, l| p.set_inactivity_limit(l),
        |p, o| {
            p.handle_observation(&o);
        },
        |p| snap(p),
        true,
    );
}
//@ bounds=0_to_2_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit,_state_shown_or_not shared=1
harness!(c15_cockpit, {
    cockpit(2);
});
//@ bounds=0_to_3_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit,_state_shown_or_not shared=1 tier=thorough shards=4
harness!(c15_cockpit_more, {
    cockpit(3);
});
fn processor(most: u8) {
    drive(
        most,
        |show| {
            let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
            p.set_show_activity_state(show);
            p.add_snapshooter(Put("v", 1));
            (tx, p)
        },
        |(_, p), l| p.set_inactivity_limit(l),
        |(tx, p), o| act(tx, p, o),
        |(_, p)| snap(p),
        true,
    );
}
//@ bounds=0_to_2_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit,_state_shown_or_not shared=1
harness!(c15_processor, {
    processor(2);
});
//@ bounds=0_to_3_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit,_state_shown_or_not shared=1 tier=thorough shards=4
harness!(c15_processor_more, {
    processor(3);
});
fn mount(most: u8) {
    drive(
        most,
        |_| {
            let (tx, p) = TelemetryProcessor::<u8>::new_pair_without_name();
            let mut m = ProcessorMount::default();
            m.add_processor(p);
            m.add_snapshooter(Put("v", 1));
            (tx, m)
        },
        |(_, m), l| m.set_inactivity_limit(l),
        |(tx, m), o| act(tx, m, o),
        |(_, m)| {
            // polling without anything to do is no activity
            snap(m)
        },
        false,
    );
}
//@ bounds=0_to_2_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit shared=1
harness!(c15_mount, {
    mount(2);
});
//@ bounds=0_to_3_observations_or_snapshots_at_any_times_within_2^40_s,_any_limit shared=1 tier=thorough shards=4
harness!(c15_mount_more, {
    mount(3);
});
// Polling a processor or mount with nothing to process is no activity.
//@ bounds=any_limit,_any_times_within_2^40_s
harness!(c15_idle_polls, {
    let t0 = T::any(1 << 30);
    t0.go();
    let limit = any_duration();
    let (_tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    p.set_inactivity_limit(limit);
    p.add_snapshooter(Put("v", 1));
    let (_tx2, p2) = TelemetryProcessor::<u8>::new_pair_without_name();
    let mut m = ProcessorMount::default();
    m.add_processor(p2);
    m.set_inactivity_limit(limit);
    m.add_snapshooter(Put("v", 1));
    let t1 = later(t0, SPAN);
    t1.go();
    p.process(2, ProcessingStrategy::default());
    m.process(2, ProcessingStrategy::default());
    let t2 = later(t1, SPAN);
    t2.go();
    expect(&snap(&p), t2.since(t0), Some(limit), true);
    expect(&snap(&m), t2.since(t0), Some(limit), true);
    cover!();
});
// Observations that are dropped, or that a panel does not accept, do not wake what they never reach.
//@ bounds=any_limit,_any_times_within_2^40_s
harness!(c15_not_accepted, {
    let t0 = T::any(1 << 30);
    t0.go();
    let limit = any_duration();
    let mut p = Panel::accept(1u8).inactivity_limit(limit).snapshooter(Put("v", 1));
    let t1 = later(t0, SPAN);
    t1.go();
    p.handle_observation(&obs(2));
    let t2 = later(t1, SPAN);
    t2.go();
    expect(&snap(&p), t2.since(t0), Some(limit), true);
    cover!();
});
// Histograms: inactive ones show no values; after inactivity they start anew, if not configured
// otherwise.
//@ bounds=2_values,_the_second_0_or_1_ns_or_60.5_or_4000_s_later,_an_observation_without_a_usable_value_of_3_shapes_or_none,_any_limit,_state_shown_or_not,_reset_or_not
harness!(c15_histogram, {
    T::new(1000, 5).go();
    let limit = any_duration();
    let show = coin();
    let reset = coin();
    let default_reset = reset && coin();
    let later_set = coin();
    let mut h = Histogram::new("h").show_activity_state(show);
    if !later_set {
        h.set_inactivity_limit(limit);
    }
    if !default_reset {
        h.set_reset_after_inactivity(reset);
    }
    h.update(&Update::ObservationWithValue(5.into(), Instant::now()));
    let gap = [(0u64, 0u32), (0, 1), (60, 500_000_000), (4000, 0)][pick(4)];
    T::new(1000 + gap.0, 5 + gap.1).go();
    let lim = (limit.as_secs(), limit.subsec_nanos());
    if later_set {
        h.set_inactivity_limit(limit);
    }
    // nothing to count, and no activity
    let useless = match pick(4) {
        0 => None,
        1 => Some(Update::Observation(Instant::now())),
        2 => Some(Update::Observations(3, Instant::now())),
        _ => Some(Update::ObservationWithValue(f64::NAN.into(), Instant::now())),
    };
    if let Some(u) = useless {
        check!(h.update(&u) == 0);
    }
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    if gap > lim {
        check!(entries(s, "count") == 0);
        check!(s.items.len() == 2 * show as usize);
        if show {
            check!(boolean(s, "_inactive") == Some(true));
            check!(boolean(s, "_active") == Some(false));
        }
    } else if gap < lim {
        check!(uint(s, "count") == Some(1));
        if show {
            check!(boolean(s, "_inactive") == Some(false));
            check!(boolean(s, "_active") == Some(true));
        } else {
            check!(boolean(s, "_inactive").is_none());
        }
    }
    let n = h.update(&Update::ObservationWithValue(7.into(), Instant::now()));
    check!(n == 1);
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    if lim > (0, 0) {
        if gap > lim && reset {
            check!(uint(s, "count") == Some(1));
            check!(int(s, "min") == Some(7));
            cover!();
        } else if gap != lim {
            check!(uint(s, "count") == Some(2));
            check!(int(s, "min") == Some(5));
            cover!();
        }
    }
});
