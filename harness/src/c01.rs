//! C01: delivery from transmitter to handlers through the queue of a processor.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::processor::*;
use metrix::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn same(a: &Seen, b: &Seen) -> bool {
    (a.by == b.by) & (a.label == b.label) & (a.kind == b.kind) & (a.bits == b.bits) & (a.at == b.at)
}

fn interleave(steps: u64) {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair("p");
    let tx2 = tx.clone();
    let r1 = u8v() as usize;
    let r2 = u8v() as usize;
    rx.add_handler(Rec::new(0, &l).ret(r1));
    let mut c = Cockpit::new("c");
    c.add_handler(Rec::new(1, &l).ret(r2));
    rx.add_cockpit(c);
    let mut queue: VecDeque<Seen> = VecDeque::new();
    let mut expect: Vec<Seen> = Vec::new();
    let mut step = 0;
    loop {
        let what = if step < steps { pick(7) } else { 5 };
        let max = if step == steps { 100 } else { [0, 0, 0, 1, 2, 3, 2][what] };
        let drop_all = what == 6;
        step += 1;
        if what < 2 {
            let label = u8v();
            let o = Observation::observed(label, u64v(), T::new(4990 + step, 7).instant());
            let mut s = seen(0, &o);
            s.by = 0;
            queue.push_back(s);
            if what == 0 {
                tx.transmit(o);
            } else {
                tx2.transmit(o);
            }
            check!(tx.queue_size() == queue.len());
            continue;
        }
        T::new(5000 + step, 0).go();
        let out = rx.process(
            max,
            if drop_all { ProcessingStrategy::DropAll } else { ProcessingStrategy::ProcessAll },
        );
        let n = queue.len().min(max);
        let handled = if drop_all { 0 } else { n };
        check!(out.processed == handled);
        check!(out.dropped == n - handled);
        check!(out.observations_enqueued == queue.len() - n);
        check!(out.instruments_updated == handled * (r1 + r2));
        check!(out.something_happened() == (n > 0));
        for _ in 0..n {
            let o = queue.pop_front().unwrap();
            if !drop_all {
                expect.push(o);
            }
        }
        if step > steps {
            break;
        }
    }
    let got = take(&l);
    let a: Vec<Seen> = got.iter().filter(|s| s.by == 0).cloned().collect();
    let mut b: Vec<Seen> = got.iter().filter(|s| s.by == 1).cloned().collect();
    b.iter_mut().for_each(|s| s.by = 0);
    check!(a.len() == expect.len());
    check!(b.len() == expect.len());
    for i in 0..expect.len() {
        check!(same(&a[i], &expect[i]));
        check!(same(&b[i], &expect[i]));
    }
    check!(tx.is_queue_empty());
    cover!(expect.len() == 5);
    cover!(expect.is_empty());
    observe(expect.len() as u64);
}
// Any interleaving of sends (from either of two clones) and process(max) calls, max 0..=3, then
// draining: every observation reaches the handler exactly once, unaltered and in sending order, and
// the outcome of every call accounts for what was taken and what is left.
//@ bounds=6_steps,_process_max_0..=3_or_dropping_2,_one_handler_on_the_processor_and_one_in_a_cockpit shared=interleave shards=4
harness!(c01_interleave, {
    interleave(6)
});
//@ bounds=7_steps,_process_max_0..=3_or_dropping_2,_one_handler_on_the_processor_and_one_in_a_cockpit tier=thorough shared=interleave shards=7
harness!(c01_interleave_more, {
    interleave(7)
});

// Observations of every shape arrive as they were sent, whichever way they are sent.
//@ bounds=one_observation,_any_contents_(durations:_some_whole_seconds,_any_nanoseconds)
harness!(c01_contents, {
    let l = log();
    let way = pick(9);
    let (t, now) = if way < 6 {
        (T::any(1 << 30), T::any(1 << 30))
    } else {
        // whole seconds picked, nanoseconds arbitrary: products of seconds stay easy
        (
            T::new([2, 6999, 7000, 7001, 9_000][pick(5)], below(1_000_000_000) as u32),
            T::new(7000, below(1_000_000_000) as u32),
        )
    };
    let label = u8v();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Rec::new(0, &l));
    let at = t.instant();
    now.go();
    let stamp_now = std::time::Instant::now();
    let n = u64v();
    let i = n as i64;
    let (kind, bits, stamp) = match way {
        0 => {
            tx.observed(label, n, at);
            (0, n, at)
        }
        1 => {
            tx.observed_one(label, at);
            (1, 0, at)
        }
        2 => {
            tx.observed_one_value(label, i, at);
            (2, n, at)
        }
        3 => {
            tx.observed_now(label, n);
            (0, n, stamp_now)
        }
        4 => {
            tx.observed_one_now(label);
            (1, 0, stamp_now)
        }
        5 => {
            tx.observed_one_value_now(label, n);
            (3, n, stamp_now)
        }
        6 => {
            let d = Duration::new([0, 1, 59, 86_400, 999_999_999][pick(5)], below(1_000_000_000) as u32);
            tx.observed_duration(label, d, at);
            (10, d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64, at)
        }
        7 => {
            let d = Duration::new([0, 1, 59, 86_400, 999_999_999][pick(5)], below(1_000_000_000) as u32);
            tx.observed_one_duration_now(label, d);
            (10, d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64, stamp_now)
        }
        _ => {
            tx.measure_time(label, at);
            let (s, ns) = now.since(t);
            (10, s.wrapping_mul(1_000_000_000).wrapping_add(ns as u64), stamp_now)
        }
    };
    let out = rx.process(10, ProcessingStrategy::ProcessAll);
    let got = take(&l);
    if way == 8 && now.lt(t) {
        check!(got.is_empty());
        check!(out.processed == 0);
        cover!();
        return;
    }
    check!(got.len() == 1);
    check!(out.processed == 1);
    let g = &got[0];
    check!((g.label == label) & (g.kind == kind));
    check!(g.bits == bits);
    check!(g.at == stamp);
    cover!(way == 8);
    observe(g.kind as u64);
    observe(g.bits);
});

/// a handler that transmits further observations while it handles one
struct Echo {
    tx: TelemetryTransmitter<u8>,
    log: Log,
}
impl PutsSnapshot for Echo {
    fn put_snapshot(&self, _: &mut metrix::snapshot::Snapshot, _: bool) {}
}
impl HandlesObservations for Echo {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        self.log.lock().unwrap().push(seen(0, o));
        if let Observation::Observed { count, label, timestamp } = o {
            for k in 0..*count {
                self.tx.observed_one(label.wrapping_add(1 + k as u8), *timestamp);
            }
        }
        1
    }
}
// A handler that itself transmits (0..=2 messages per observation) while the processor drains:
// nothing is lost, duplicated or reordered, and no call takes more than it may.
//@ bounds=2_observations_each_causing_0..=2_more,_process_max_0..=5
harness!(c01_reentrant, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Echo {
        tx: tx.clone(),
        log: l.clone(),
    });
    let at = std::time::Instant::now();
    let (n1, n2) = (pick(3), pick(3));
    tx.observed(10, n1 as u64, at);
    tx.observed(20, n2 as u64, at);
    let mut order = vec![10u8, 20];
    for k in 0..n1 {
        order.push(11 + k as u8)
    }
    for k in 0..n2 {
        order.push(21 + k as u8)
    }
    let max = pick(6);
    let a = rx.process(max, ProcessingStrategy::ProcessAll);
    check!(a.processed <= max);
    check!(a.processed == max.min(order.len()));
    let sent = 2 + if a.processed > 0 { n1 } else { 0 } + if a.processed > 1 { n2 } else { 0 };
    check!(a.observations_enqueued == sent - a.processed);
    let b = rx.process(100, ProcessingStrategy::ProcessAll);
    check!(a.processed + b.processed == order.len());
    check!(b.observations_enqueued == 0);
    let got = take(&l);
    check!(got.len() == order.len());
    // with max 1 the second original is handled after the first one's echoes were enqueued, but it
    // was enqueued before them
    for i in 0..order.len() {
        check!(got[i].label == order[i]);
    }
    cover!(max == 1 && n1 == 2 && n2 == 2);
    cover!(max == 0);
});

// Messages still queued when every transmitter is gone are processed all the same; afterwards the
// processor stays quiet.
//@ bounds=0..=3_observations
harness!(c01_after_disconnect, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair("p");
    rx.add_handler(Rec::new(0, &l));
    let n = pick(4);
    for k in 0..n {
        tx.observed_one_now(k as u8);
    }
    let early = pick(4);
    let a = rx.process(early, ProcessingStrategy::ProcessAll);
    let second = coin();
    let tx2 = if second { Some(tx.clone()) } else { None };
    drop(tx);
    let b = rx.process(2, ProcessingStrategy::ProcessAll);
    let mut total = a.processed + b.processed;
    let mut want = n;
    if let Some(t) = tx2 {
        t.observed_one_now(n as u8);
        want += 1;
        drop(t);
    }
    let c = rx.process(100, ProcessingStrategy::ProcessAll);
    total += c.processed;
    check!(total == want);
    let d = rx.process(100, ProcessingStrategy::ProcessAll);
    check!((d.processed == 0) & (d.dropped == 0) & (d.observations_enqueued == 0));
    let got = take(&l);
    check!(got.len() == want);
    for i in 0..want {
        check!(got[i].label == i as u8);
    }
    cover!(n == 3 && early == 0);
    cover!(second);
});

/// Two threads transmit `na` and `nb` messages while this one processes up to `max`.
fn threads(na: u8, nb: u8, max: usize, preemptions: u32) -> Vec<u8> {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Rec::new(0, &l));
    let at = std::time::Instant::now();
    let t1 = tx.clone();
    let t2 = tx;
    let a = std::thread::spawn(move || {
        for i in 0..na {
            t1.observed_one(10 + i, at);
        }
    });
    let b = std::thread::spawn(move || {
        for i in 0..nb {
            t2.observed_one(20 + i, at);
        }
    });
    unsafe { sx_preempt(preemptions) };
    let mut n = rx.process(max, ProcessingStrategy::ProcessAll).processed;
    check!(n <= max);
    a.join().unwrap();
    b.join().unwrap();
    unsafe { sx_preempt(0) };
    let out = rx.process(100, ProcessingStrategy::ProcessAll);
    n += out.processed;
    check!(n == na as usize + nb as usize);
    check!(out.observations_enqueued == 0);
    let got: Vec<u8> = take(&l).iter().map(|s| s.label).collect();
    check!(got.len() == n);
    for (from, n) in [(10, na), (20, nb)] {
        let mine: Vec<u8> = got.iter().cloned().filter(|x| *x >= from && *x < from + 10).collect();
        check!(mine.len() == n as usize);
        for i in 0..mine.len() {
            check!(mine[i] == from + i as u8);
        }
    }
    check!(rx.process(1, ProcessingStrategy::ProcessAll).processed == 0);
    got
}
// Two threads transmit while a third one (this) processes: under every schedule with at most 3
// preemptions everything arrives exactly once and each thread's messages arrive in order.
//@ bounds=2_senders_with_2_and_1_messages,_3_preemptions_at_atomic_operations threads=1 noreplay=1 cost=9 timeout=500
harness!(c01_threads, {
    let got = threads(2, 1, 2, 3);
    cover!(got[0] == 20);
    cover!(got[1] == 20);
    cover!(got[2] == 20);
});
// The same with more messages.
//@ bounds=2_senders_with_3_and_2_messages,_3_preemptions_at_atomic_operations threads=1 noreplay=1 cost=9 timeout=800 tier=thorough
harness!(c01_threads_more, {
    let got = threads(3, 2, 4, 3);
    cover!(got[4] == 12);
    cover!(got[4] == 21);
});
// The last words of a thread that goes away while this one processes are heard.
//@ bounds=1_sender_with_2_messages_that_drops_the_last_transmitter,_processing_until_it_is_gone,_3_preemptions_at_atomic_operations threads=1 noreplay=1 cost=5
harness!(c01_leaving, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_handler(Rec::new(0, &l));
    let at = std::time::Instant::now();
    let a = std::thread::spawn(move || {
        tx.observed_one(10, at);
        tx.observed_one(11, at);
    });
    unsafe { sx_preempt(3) };
    let mut n = 0;
    for _ in 0..2 {
        n += rx.process(2, ProcessingStrategy::ProcessAll).processed;
    }
    let early = n;
    a.join().unwrap();
    unsafe { sx_preempt(0) };
    for _ in 0..2 {
        n += rx.process(2, ProcessingStrategy::ProcessAll).processed;
    }
    check!(n == 2);
    let got = take(&l);
    check!(got.len() == 2 && got[0].label == 10 && got[1].label == 11);
    cover!(early == 0);
    cover!(early == 1);
    cover!(early == 2);
});

// However many observations are queued and however many may be taken at once.
//@ bounds=200_or_2500_observations_from_2_clones,_every_other_one_too_old,_8_maxima_around_100_or_200_and_up_to_the_largest,_3_strategies
harness!(c01_many, {
    let total = [200, 2500][pick(2)];
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair("p");
    let tx2 = tx.clone();
    rx.add_handler(Rec::new(0, &l));
    let v = u64v();
    for i in 0..total {
        let at = T::new(if i % 2 == 0 { 4000 } else { 5000 }, i as u32).instant();
        let t = if i % 3 == 0 { &tx } else { &tx2 };
        t.transmit(Observation::observed(i as u8, v, at));
    }
    check!(tx.queue_size() == total);
    T::new(5000, 0).go();
    let way = pick(3);
    let strategy = match way {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(100), drop_deltas: true },
    };
    let max = if total == 200 {
        [99, 100, 101, 199, 200, 201, 1 << 32, usize::MAX][pick(8)]
    } else {
        [1000, usize::MAX][pick(2)]
    };
    let mut done = 0;
    while done < total {
        let n = if max > total { total } else if max < total - done { max } else { total - done };
        let out = rx.process(max, strategy);
        let got = take(&l);
        let here: Vec<usize> = (done..done + n)
            .filter(|i| way == 0 || (way == 2 && i % 2 == 1))
            .collect();
        check!(got.len() == here.len());
        for (g, i) in got.iter().zip(&here) {
            check!((g.label == *i as u8) & (g.bits == v));
        }
        check!(out.processed == here.len());
        check!(out.dropped == n - here.len());
        check!(out.instruments_updated == here.len());
        done += n;
        check!(out.observations_enqueued == total - done);
        check!(tx2.queue_size() == total - done);
    }
    cover!(way == 2 && max > total);
});

/// takes its time
struct Slow(Log, u64, u32);
impl PutsSnapshot for Slow {
    fn put_snapshot(&self, _: &mut metrix::snapshot::Snapshot, _: bool) {}
}
impl HandlesObservations for Slow {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        let n = self.0.lock().unwrap().len() as u64;
        T { s: 5000 + n * (self.1 + 1), n: self.2 }.go();
        1
    }
}
// However long handling an observation takes.
//@ bounds=6_observations,_a_slow_handler_before_or_after_others_in_processor,_cockpit_or_panel_that_takes_1_ns_to_a_day,_6_maxima,_kept_or_dropped
harness!(c01_slow, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair("p");
    let (s, n) = [(0, 1), (0, 150_000_000), (2, 0), (100, 0), (86_400, 0)][pick(5)];
    let slow = || Slow(l.clone(), s, n);
    let at = pick(4);
    let mut panel = metrix::instruments::Panel::<u8>::accept_all();
    if at == 0 {
        panel.add_handler(slow());
    }
    panel.add_handler(Rec::new(0, &l));
    let mut c = Cockpit::without_name();
    c.add_panel(panel);
    if at == 1 {
        c.add_handler(slow());
    }
    c.add_handler(Rec::new(1, &l));
    rx.add_cockpit(c);
    if at == 2 {
        rx.add_handler(slow());
    }
    rx.add_handler(Rec::new(2, &l));
    if at == 3 {
        rx.add_handler(slow());
    }
    let v = u64v();
    for i in 0..6u8 {
        tx.observed_one_value(i, v, T::new(5000, i as u32).instant());
    }
    let keep = coin();
    let strategy = if keep { ProcessingStrategy::ProcessAll } else { ProcessingStrategy::DropAll };
    let max = [0, 1, 3, 5, 6, 100][pick(6)];
    let mut done = 0u8;
    while done < 6 {
        let n = if max < (6 - done) as usize { max } else { (6 - done) as usize };
        let out = rx.process(max, strategy);
        check!(out.processed == if keep { n } else { 0 });
        check!(out.dropped == if keep { 0 } else { n });
        check!(out.instruments_updated == if keep { 4 * n } else { 0 });
        check!(out.observations_enqueued == 6 - done as usize - n);
        let got = take(&l);
        check!(got.len() == if keep { 3 * n } else { 0 });
        for (k, g) in got.iter().enumerate() {
            check!((g.label == done + (k / 3) as u8) & (g.bits == v));
        }
        done += n as u8;
        if max == 0 {
            break;
        }
    }
    cover!(keep && max == 3 && s > 1);
});
