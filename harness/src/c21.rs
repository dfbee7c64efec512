//! C21: bounded queues drop or wait as configured; transmitting never fails.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::processor::*;
use metrix::*;
use std::sync::{Arc, Mutex};

fn drops(steps: usize) {
    T::new(1000, 0).go();
    let cap = 1 + pick(3);
    let (tx, p) = if coin() {
        TelemetryProcessor::<u8>::new_pair_bounded("p", cap, false)
    } else {
        TelemetryProcessor::<u8>::new_pair_bounded_without_name(cap, false)
    };
    let l = log();
    let mut p = p.handler(Rec::new(1, &l));
    let tx2 = tx.clone();
    let mut queue: Vec<u8> = Vec::new();
    let mut next = 0u8;
    let mut lost = 0;
    let mut i = 0;
    while i < steps {
        i += 1;
        match pick(4) {
            k @ 0..=1 => {
                if k == 0 {
                    tx.observed_one_now(next);
                } else {
                    tx2.observed_one_value_now(next, 3);
                }
                if queue.len() < cap {
                    queue.push(next);
                } else {
                    lost += 1;
                }
                next += 1;
            }
            k => {
                let max = k - 1;
                let o = p.process(max, ProcessingStrategy::ProcessAll);
                let n = queue.len().min(max);
                check!(o.processed == n);
                check!(o.observations_enqueued == queue.len() - n);
                let got = take(&l);
                check!(got.len() == n);
                for g in got {
                    check!(g.label == queue.remove(0));
                }
            }
        }
        check!(tx.queue_size() == queue.len());
        check!(tx2.queue_size() == queue.len());
        check!(tx.is_queue_full() == (queue.len() == cap));
        check!(tx.is_queue_empty() == queue.is_empty());
        check!(tx2.queue_capacity() == Some(cap));
    }
    cover!(lost == 2 && cap == 2);
    cover!(next == 6 && lost == 3);
}
// A bounded queue that does not block drops what comes while it is full, and only that.
//@ bounds=capacity_1_to_3,_7_steps_of_sending_from_2_clones_and_processing_0_to_2 shards=3 shared=drops
harness!(c21_drops, {
    drops(7)
});
//@ bounds=capacity_1_to_3,_9_steps_of_sending_from_2_clones_and_processing_0_to_2 tier=thorough shared=drops shards=4
harness!(c21_drops_more, {
    drops(9)
});
// An unbounded queue takes everything and is never full.
//@ bounds=0_to_5_observations
harness!(c21_unbounded, {
    T::new(1000, 0).go();
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    check!(tx.queue_capacity().is_none());
    let n = pick(6);
    for i in 0..n {
        check!(tx.queue_size() == i);
        tx.observed_now(1, u64v());
        check!(!tx.is_queue_full());
    }
    check!(p.process(100, ProcessingStrategy::ProcessAll).processed == n);
    check!(tx.queue_size() == 0);
    cover!(n == 5);
});
// Whatever is transmitted when the processor is gone is gone, too, without harm.
//@ bounds=unbounded_and_bounded_(full_or_not,_blocking_or_not),_one_of_10_ways_to_transmit
harness!(c21_gone, {
    T::new(1000, 0).go();
    let kind = pick(3);
    let (tx, p) = match kind {
        0 => TelemetryProcessor::<u8>::new_pair("p"),
        1 => TelemetryProcessor::<u8>::new_pair_bounded("p", 1, false),
        _ => TelemetryProcessor::<u8>::new_pair_bounded("p", 1, true),
    };
    if coin() {
        tx.observed_one_now(1);
    }
    drop(p);
    let t = std::time::Instant::now();
    let k = pick(10);
    match k {
        0 => tx.transmit(Observation::observed_one_now(1)),
        1 => tx.observed(1, u64v(), t),
        2 => tx.observed_duration(1, std::time::Duration::from_secs(u64v() >> 34), t),
        3 => tx.measure_time(1, t),
        4 => tx.observed_one_value_now(1, f64v()),
        5 => tx.add_handler(Rec::new(1, &log())),
        6 => tx.add_cockpit(Cockpit::new("c")),
        7 => tx.remove_cockpit("c"),
        8 => tx.add_panel_to_cockpit("c", metrix::instruments::Panel::accept_all()),
        _ => tx.remove_panel_from_cockpit("c", "p"),
    };
    let tx2 = tx.clone();
    tx2.observed_one_now(2);
    drop(tx);
    cover!(k == 9 && kind == 2);
    cover!(k == 4 && kind == 1);
});
// A bounded queue that blocks loses nothing: the transmitting thread waits until there is room.
//@ bounds=capacity_1_or_2,_3_observations_from_another_thread,_all_schedules_with_2_preemptions threads=1 noreplay=1 cost=8
harness!(c21_blocks, {
    T::new(1000, 0).go();
    let cap = 1 + pick(2);
    let pause = if coin() { 1 } else { 1_000_000 };
    let (tx, p) = TelemetryProcessor::<u8>::new_pair_bounded("p", cap, true);
    let l = log();
    let mut p = p.handler(Rec::new(1, &l));
    let most = Arc::new(Mutex::new(0));
    unsafe { sx_preempt(2) };
    let h = std::thread::spawn(move || {
        for i in 0..3u8 {
            tx.observed_one_now(i);
            assert!(tx.queue_size() <= 3);
        }
    });
    let mut got = Vec::new();
    if coin() {
        std::thread::sleep(std::time::Duration::from_secs(1000));
    }
    while got.len() < 3 {
        let o = p.process(5, ProcessingStrategy::ProcessAll);
        check!(o.observations_enqueued <= cap);
        for g in take(&l) {
            got.push(g.label);
        }
        // however long it takes until there is room
        std::thread::sleep(std::time::Duration::from_millis(pause));
    }
    h.join().unwrap();
    check!(got == [0, 1, 2]);
    check!(p.process(5, ProcessingStrategy::ProcessAll).processed == 0);
    *most.lock().unwrap() += 1;
    cover!();
});
// A transmitter that waits for room does not wait forever when the processor goes away.
//@ bounds=capacity_1,_2_observations_from_another_thread,_all_schedules_with_2_preemptions threads=1 noreplay=1 cost=8
harness!(c21_wakes, {
    T::new(1000, 0).go();
    let (tx, p) = TelemetryProcessor::<u8>::new_pair_bounded_without_name(1, true);
    unsafe { sx_preempt(2) };
    let h = std::thread::spawn(move || {
        tx.observed_one_now(1).observed_one_now(2);
    });
    if coin() {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    drop(p);
    h.join().unwrap();
    cover!();
});

// The same with room for many.
//@ bounds=capacity_100_or_1000,_twice_as_many_observations,_blocking_never_needed_or_not_blocking
harness!(c21_large, {
    T::new(1000, 0).go();
    let cap = [100, 1000][pick(2)];
    let blocks = coin();
    let (tx, p) = TelemetryProcessor::<u8>::new_pair_bounded("p", cap, blocks);
    let l = log();
    let mut p = p.handler(Rec::new(1, &l));
    check!(tx.queue_capacity() == Some(cap));
    let sent = if blocks { cap } else { cap + 100 };
    let v = u64v();
    for i in 0..sent {
        tx.transmit(Observation::observed(i as u8, v, T::new(1000, i as u32).instant()));
        if i + 2 == cap || i + 1 >= cap {
            check!(tx.queue_size() == cap.min(i + 1));
            check!(tx.is_queue_full() == (i + 1 >= cap));
        }
    }
    let o = p.process(cap + 1, ProcessingStrategy::ProcessAll);
    check!(o.processed == cap);
    check!(o.observations_enqueued == 0);
    let got = take(&l);
    check!(got.len() == cap);
    for i in 0..cap {
        check!((got[i].label == i as u8) & (got[i].bits == v));
    }
    check!(tx.is_queue_empty());
    cover!(blocks && cap == 1000);
});

// Whatever is sent is treated like that, not only observations: what changes the processor, too.
/// (a processor with a cockpit c that has a panel p)
fn administered(cap: usize, blocks: bool, l: &Log) -> (TelemetryTransmitter<u8>, TelemetryProcessor<u8>) {
    let (tx, p) = TelemetryProcessor::<u8>::new_pair_bounded_without_name(cap, blocks);
    let panel = |n: &str, id| metrix::instruments::Panel::accept_all_named(n).handler(Rec::new(id, l));
    let mut c = Cockpit::new("c");
    c.add_panel(panel("p", 1));
    let mut d = Cockpit::new("d");
    d.add_panel(panel("p", 2));
    (tx, p.cockpit(c).cockpit(d).handler(Rec::new(0, l)))
}
fn administer(tx: &TelemetryTransmitter<u8>, what: usize, l: &Log) {
    let panel = |n: &str, id| metrix::instruments::Panel::accept_all_named(n).handler(Rec::new(id, l));
    match what {
        0 => tx.add_handler(Rec::new(3, l)),
        1 => {
            let mut e = Cockpit::new("e");
            e.add_panel(panel("p", 4));
            tx.add_cockpit(e)
        }
        2 => tx.remove_cockpit("c"),
        3 => tx.add_panel_to_cockpit("d", panel("q", 5)),
        _ => tx.remove_panel_from_cockpit("d", "p"),
    };
}
fn administered_by(what: usize, by: &mut [bool; 6]) {
    match what {
        0 => by[3] = true,
        1 => by[4] = true,
        2 => by[1] = false,
        3 => by[5] = true,
        _ => by[2] = false,
    }
}
//@ bounds=capacity_1_to_3,_4_different_or_equal_changes_of_5_kinds_after_0_or_1_observation,_then_an_observation,_not_blocking
harness!(c21_changes, {
    T::new(1000, 0).go();
    let l = log();
    let cap = 1 + pick(3);
    let (tx, mut p) = administered(cap, false, &l);
    let mut by = [true, true, true, false, false, false];
    let mut full = 0;
    if coin() {
        tx.observed_one_now(1);
        full = 1;
    }
    let mut done = [false; 5];
    let mut kept = 0;
    for _ in 0..4 {
        let w = pick(5);
        if done[w] {
            return;
        }
        done[w] = true;
        administer(&tx, w, &l);
        if full + kept < cap {
            kept += 1;
            administered_by(w, &mut by);
        }
        check!(tx.queue_size() == full + kept);
        check!(tx.is_queue_full() == (full + kept == cap));
    }
    p.process(100, ProcessingStrategy::ProcessAll);
    take(&l);
    check!(tx.is_queue_empty());
    tx.observed_one_now(7);
    let n = by.iter().filter(|b| **b).count();
    let o = p.process(100, ProcessingStrategy::ProcessAll);
    check!(o.processed == 1);
    let got = take(&l);
    check!(got.len() == n);
    for g in got {
        check!(by[g.by as usize]);
        check!(g.label == 7);
    }
    cover!(kept == 3);
    cover!(full == 1 && cap == 1);
});
// The same when the sender has to wait.
//@ bounds=capacity_1_or_2,_2_changes_of_5_kinds_and_an_observation_from_another_thread,_begun_with_an_empty_or_a_full_queue,_emptied_at_once_or_later,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=4
harness!(c21_changes_wait, {
    T::new(1000, 0).go();
    let l = log();
    let cap = 1 + pick(2);
    let (tx, mut p) = administered(cap, true, &l);
    let mut by = [true, true, true, false, false, false];
    let full = coin();
    if full {
        for _ in 0..cap {
            tx.observed_one_now(1);
        }
    }
    let (w1, w2) = (pick(5), pick(5));
    if w1 == w2 {
        return;
    }
    administered_by(w1, &mut by);
    administered_by(w2, &mut by);
    let l2 = l.clone();
    let later = coin();
    let most = tx.clone();
    unsafe { sx_preempt(1) };
    let h = std::thread::spawn(move || {
        administer(&tx, w1, &l2);
        administer(&tx, w2, &l2);
        tx.observed_one_now(7);
    });
    if later {
        std::thread::sleep(std::time::Duration::from_secs(100));
        check!(most.queue_size() == cap);
    }
    let mut got = Vec::new();
    let mut rounds = 0;
    while !got.iter().any(|g: &Seen| g.label == 7) {
        p.process(5, ProcessingStrategy::ProcessAll);
        got.extend(take(&l));
        std::thread::sleep(std::time::Duration::from_millis(1));
        rounds += 1;
        check!(rounds < 20);
    }
    h.join().unwrap();
    unsafe { sx_preempt(0) };
    got.retain(|g| g.label == 7);
    check!(got.len() == by.iter().filter(|b| **b).count());
    for g in got {
        check!(by[g.by as usize]);
    }
    cover!(later && full && cap == 2);
    cover!(!later && !full);
});

// A queue without any room takes nothing unless somebody waits for it: not blocking, everything is dropped;
// blocking, everything is handed over.
//@ bounds=capacity_0,_not_blocking:_3_observations_and_2_processing_calls;_blocking:_2_observations_from_another_thread,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=4
harness!(c21_zero, {
    T::new(1000, 0).go();
    let blocks = coin();
    let (tx, p) = TelemetryProcessor::<u8>::new_pair_bounded("p", 0, blocks);
    let l = log();
    let mut p = p.handler(Rec::new(1, &l));
    check!(tx.queue_capacity() == Some(0));
    check!(tx.queue_size() == 0);
    if blocks {
        unsafe { sx_preempt(2) };
        let h = std::thread::spawn(move || {
            tx.observed_one_now(1).observed_one_now(2);
        });
        let mut n = 0;
        while n < 2 {
            let o = p.process(1, ProcessingStrategy::ProcessAll);
            check!((o.processed <= 1) & (o.observations_enqueued == 0));
            n += o.processed;
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        h.join().unwrap();
        let got: Vec<u8> = take(&l).iter().map(|s| s.label).collect();
        check!(got == [1, 2]);
    } else {
        for i in 0..3 {
            tx.observed_one_now(i);
            check!(tx.queue_size() == 0);
            if i > 0 {
                let o = p.process(3, ProcessingStrategy::ProcessAll);
                check!((o.processed == 0) & (o.observations_enqueued == 0));
            }
        }
        check!(take(&l).is_empty());
    }
    cover!(blocks);
    cover!(!blocks);
});
