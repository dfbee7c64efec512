//! C20: mounts process what is mounted on them, however it got there.
use crate::kit::*;
use crate::sx::*;
use metrix::attached_mount::AttachedMount;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::sync::{Arc, Mutex};

type Calls = Arc<Mutex<Vec<(u8, usize, ProcessingStrategy)>>>;
/// a processor that records how it was called and reports what it is told to
struct Fake {
    calls: Calls,
    id: u8,
    report: [usize; 4],
}
impl PutsSnapshot for Fake {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(name_of(b'A' + self.id), self.id);
    }
}
impl ProcessesTelemetryMessages for Fake {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.calls.lock().unwrap().push((self.id, max, strategy));
        ProcessingOutcome {
            processed: self.report[0],
            dropped: self.report[1],
            instruments_updated: self.report[2],
            observations_enqueued: self.report[3],
        }
    }
}
fn small() -> usize {
    u32v() as usize
}

// A mount calls each of its processors once per call with what it was called with, in the order
// they were added; the outcomes add up.
//@ bounds=0_to_3_processors_of_any_outcome_below_2^32,_any_maximum,_any_strategy,_mounted_directly_or_on_a_mount_on_the_mount
harness!(c20_mount, {
    T::new(1000, 0).go();
    let calls: Calls = Arc::new(Mutex::new(Vec::new()));
    let n = pick(4);
    let mut m = ProcessorMount::default();
    let mut inner = ProcessorMount::default();
    let nested = coin();
    let mut sum = [0usize; 4];
    let mut i = 0;
    while i < n {
        let report = [small(), small(), small(), small()];
        for k in 0..4 {
            sum[k] += report[k];
        }
        let f = Fake { calls: calls.clone(), id: i as u8, report };
        if nested {
            inner.add_processor(f);
        } else {
            m.add_processor(f);
        }
        i += 1;
    }
    check!(m.processors().len() == if nested { 0 } else { n });
    if nested {
        m.add_processor(inner);
    }
    let max = u64v() as usize;
    let strategy = [
        ProcessingStrategy::ProcessAll,
        ProcessingStrategy::DropAll,
        ProcessingStrategy::DropOlderThan { max_age: std::time::Duration::from_secs(7), drop_deltas: true },
    ][pick(3)];
    let o = m.process(max, strategy);
    check!(o.processed == sum[0]);
    check!(o.dropped == sum[1]);
    check!(o.instruments_updated == sum[2]);
    check!(o.observations_enqueued == sum[3]);
    check!(o.something_happened() == ((sum[0] > 0) | (sum[1] > 0)));
    let c = calls.lock().unwrap();
    check!(c.len() == n);
    let mut i = 0;
    while i < n {
        check!(c[i].0 == i as u8);
        check!(c[i].1 == max);
        check!(c[i].2 == strategy);
        i += 1;
    }
    cover!(n == 3 && nested);
});
// The same with many and nested further.
//@ bounds=30_processors_over_6_levels_of_mounts_(or_attached_mounts),_2_of_them_with_any_outcomes_below_2^32
harness!(c20_many, {
    T::new(1000, 0).go();
    let calls: Calls = Arc::new(Mutex::new(Vec::new()));
    let attached = coin();
    let mut sum = [0usize; 4];
    let mut handles = Vec::new();
    let mut m = ProcessorMount::default();
    for level in 0..6u8 {
        let mut outer = ProcessorMount::default();
        if attached {
            handles.push(outer.attached_mount(m));
        } else {
            outer.add_processor(m);
        }
        for i in 0..5u8 {
            let mut report = [1 + i as usize, 10 + level as usize, 3 * i as usize, 7];
            if i == 2 && level % 3 == 0 {
                report = [small(), small(), small(), small()];
            }
            for k in 0..4 {
                sum[k] += report[k];
            }
            outer.add_processor(Fake { calls: calls.clone(), id: level * 5 + i, report });
        }
        m = outer;
    }
    let max = u64v() as usize;
    for round in 1..3 {
        let o = m.process(max, ProcessingStrategy::DropAll);
        check!(o.processed == sum[0]);
        check!(o.dropped == sum[1]);
        check!(o.instruments_updated == sum[2]);
        check!(o.observations_enqueued == sum[3]);
        let c = calls.lock().unwrap();
        check!(c.len() == round * 30);
        for id in 0..30u8 {
            check!(c.iter().filter(|c| c.0 == id && c.1 == max && c.2 == ProcessingStrategy::DropAll).count() == round);
        }
    }
    let s = snap(&m);
    check!(s.items.len() == 30);
    cover!(attached);
});

/// an attachment point and what has been put there
struct Point {
    handle: Option<AttachedMount>,
    puts: usize,
}
fn attached(ops: usize) {
    T::new(1000, 0).go();
    let calls: Calls = Arc::new(Mutex::new(Vec::new()));
    let mut root = ProcessorMount::new("root");
    let mut outer = Point { handle: Some(root.attached_mount(ProcessorMount::new("outer"))), puts: 0 };
    let mut inner: Option<Point> = None;
    let mut next = 0u8;
    // what is on the outer and on the inner mount
    let (mut on_outer, mut on_inner): (Vec<u8>, Vec<u8>) = (Vec::new(), Vec::new());
    let mut snaps = [0usize; 2];
    let mut steps = 0;
    while steps <= ops {
        steps += 1;
        let op = if steps > ops { 0 } else { pick(7) };
        match op {
            0 => {
                calls.lock().unwrap().clear();
                let o = root.process(10, ProcessingStrategy::ProcessAll);
                let mut want: Vec<u8> = Vec::new();
                want.extend_from_slice(&on_outer);
                want.extend_from_slice(&on_inner);
                want.sort();
                let mut got: Vec<u8> = calls.lock().unwrap().iter().map(|c| c.0).collect();
                got.sort();
                check!(got == want);
                check!(o.processed == want.len());
                let s = snap(&root);
                let r = sub(&s, "root").unwrap();
                let x = sub(r, "outer").unwrap();
                for id in &on_outer {
                    check!(entries(x, &name_of(b'A' + *id)) == 1);
                }
                check!(entries(x, "s") == snaps[0]);
                let mut n = on_outer.len() + snaps[0];
                if inner.is_some() {
                    n += 1;
                    let y = sub(x, "inner").unwrap();
                    for id in &on_inner {
                        check!(entries(y, &name_of(b'A' + *id)) == 1);
                    }
                    check!(entries(y, "s") == snaps[1]);
                    check!(y.items.len() == on_inner.len() + snaps[1]);
                }
                check!(x.items.len() == n);
                check!(r.items.len() == 1);
            }
            1 => {
                let f = Fake { calls: calls.clone(), id: next, report: [1, 0, 0, 0] };
                if let Some(h) = &mut outer.handle {
                    if coin() {
                        h.put_processor(f);
                    } else {
                        h.add_processor(f);
                    }
                    on_outer.push(next);
                    next += 1;
                    outer.puts += 1;
                }
            }
            2 => {
                if let (Some(h), None) = (&outer.handle, &inner) {
                    let a = h.attach_mount::<ProcessorMount>(ProcessorMount::new("inner"));
                    inner = Some(Point { handle: Some(a), puts: 0 });
                }
            }
            3 => {
                if let Some(Point { handle: Some(h), puts }) = &mut inner {
                    h.put_processor(Fake { calls: calls.clone(), id: next, report: [1, 0, 0, 0] });
                    on_inner.push(next);
                    next += 1;
                    *puts += 1;
                }
            }
            4 => {
                if let Some(h) = &mut outer.handle {
                    if coin() {
                        h.put_snapshooter(Put("s", 1));
                    } else {
                        h.add_snapshooter(Put("s", 1));
                    }
                    snaps[0] += 1;
                }
            }
            5 => {
                if let Some(Point { handle: Some(h), .. }) = &inner {
                    h.put_snapshooter(Put("s", 1));
                    snaps[1] += 1;
                }
            }
            _ => {
                // a clone of the handle is as good as the handle
                let c = outer.handle.take();
                if coin() {
                    outer.handle = c.clone();
                }
                if let (Some(p), true) = (&mut inner, outer.handle.is_none()) {
                    p.handle = None;
                }
            }
        }
    }
    cover!(on_inner.len() == 2);
    cover!(outer.handle.is_none() && on_outer.len() == 2);
    cover!(snaps[1] == 1 && on_outer.len() == 1);
}
// Handles of attached mounts: whatever has been put there, in whatever order and however deep, is
// processed with the next call and shown from then on, also when the handle is gone by then.
//@ bounds=5_operations_of_7_kinds_on_a_mount_and_one_attached_to_it cost=5 shared=attached shards=3
harness!(c20_attached, {
    attached(5)
});
//@ bounds=6_operations_of_7_kinds_on_a_mount_and_one_attached_to_it tier=thorough shared=attached shards=7
harness!(c20_attached_more, {
    attached(6)
});
// Real processors behind two levels of mounts: what is transmitted is processed once.
//@ bounds=2_processors,_0_to_2_observations_each,_any_processing_maximum_up_to_3
harness!(c20_through, {
    T::new(1000, 0).go();
    let l = log();
    let (ta, pa) = TelemetryProcessor::<u8>::new_pair("a");
    let (tb, pb) = TelemetryProcessor::<u8>::new_pair("b");
    let mut root = ProcessorMount::default();
    root.add_processor(pa.handler(Rec::new(1, &l)));
    let h = root.attached_mount(ProcessorMount::new("x"));
    h.put_processor(pb.handler(Rec::new(2, &l)));
    let (na, nb) = (pick(3), pick(3));
    for _ in 0..na {
        ta.observed_one_now(1);
    }
    for _ in 0..nb {
        tb.observed_one_now(2);
    }
    let max = pick(4);
    let o = root.process(max, ProcessingStrategy::ProcessAll);
    let (da, db) = (na.min(max), nb.min(max));
    check!(o.processed == da + db);
    check!(o.observations_enqueued == na + nb - da - db);
    check!(o.dropped == 0);
    check!(o.instruments_updated == da + db);
    let got = take(&l);
    check!(got.iter().filter(|s| (s.by, s.label) == (1, 1)).count() == da);
    check!(got.iter().filter(|s| (s.by, s.label) == (2, 2)).count() == db);
    check!(got.len() == da + db);
    let o = root.process(10, ProcessingStrategy::DropAll);
    check!(o.processed == 0);
    check!(o.dropped == na + nb - da - db);
    cover!(o.dropped == 3);
});

// What one thread attaches while another one processes takes part once and from then on.
//@ bounds=a_thread_that_puts_2_processors_on_2_levels,_2_processing_calls_and_a_snapshot_meanwhile,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=5
harness!(c20_threads, {
    T::new(1000, 0).go();
    let calls: Calls = Arc::new(Mutex::new(Vec::new()));
    let mut root = ProcessorMount::new("root");
    let mut outer = root.attached_mount(ProcessorMount::default());
    let c2 = calls.clone();
    unsafe { sx_preempt(2) };
    let h = std::thread::spawn(move || {
        outer.add_processor(Fake { calls: c2.clone(), id: 0, report: [1, 0, 0, 0] });
        let mut inner = outer.attached_mount(ProcessorMount::default());
        inner.add_processor(Fake { calls: c2, id: 1, report: [10, 0, 0, 0] });
    });
    let a = root.process(5, ProcessingStrategy::ProcessAll).processed;
    let b = root.process(5, ProcessingStrategy::ProcessAll).processed;
    check!(a == 0 || a == 1 || a == 11);
    check!(b == 0 || b == 1 || b == 11);
    check!(a <= b);
    h.join().unwrap();
    unsafe { sx_preempt(0) };
    let n = calls.lock().unwrap().len();
    check!(n == [0usize, 1, 0, 2][(a % 4) as usize] + [0usize, 1, 0, 2][(b % 4) as usize]);
    check!(root.process(5, ProcessingStrategy::ProcessAll).processed == 11);
    check!(calls.lock().unwrap().len() == n + 2);
    let s = snap(&root);
    check!(sub(&s, "root").unwrap().items.len() == 2);
    cover!(a == 0 && b == 11);
    cover!(a == 11);
    cover!(b == 0);
});

// However much is put on attached mounts between two calls, and however deep.
//@ bounds=25_processors_and_12_snapshooters_put_on_each_of_5_mounts_attached_to_one_another,_in_two_lots,_with_the_handles_kept_or_not
harness!(c20_wide, {
    T::new(1000, 0).go();
    let calls: Calls = Arc::new(Mutex::new(Vec::new()));
    let mut root = ProcessorMount::default();
    let keep = coin();
    let through_clones = coin();
    let mut handles = vec![root.attached_mount(ProcessorMount::new("0"))];
    for i in 1..5 {
        let h = handles[i - 1].attach_mount::<ProcessorMount>(ProcessorMount::new(i.to_string()));
        handles.push(h);
    }
    let r = u8v() as usize;
    let put = |handles: &[AttachedMount], lot: u8| {
        for h in handles {
            let c = h.clone();
            for i in 0..if lot == 0 { 20 } else { 5 } {
                let f = Fake { calls: calls.clone(), id: i, report: [r, 1, r, 3] };
                if through_clones {
                    c.put_processor(f);
                } else {
                    h.put_processor(f);
                }
                if i < if lot == 0 { 10 } else { 2 } {
                    h.put_snapshooter(Put("s", 1));
                }
            }
        }
    };
    put(&handles, 0);
    let max = u64v() as usize;
    let o = root.process(max, ProcessingStrategy::ProcessAll);
    check!((o.processed == 100 * r) & (o.dropped == 100));
    check!((o.instruments_updated == 100 * r) & (o.observations_enqueued == 300));
    put(&handles, 1);
    if !keep {
        drop(handles);
    }
    for round in 0..3 {
        calls.lock().unwrap().clear();
        let o = root.process(max, ProcessingStrategy::DropAll);
        check!((o.processed == 125 * r) & (o.dropped == 125));
        let c = calls.lock().unwrap();
        check!(c.len() == 125);
        for id in 0..20 {
            check!(c.iter().filter(|c| c.0 == id && c.1 == max && c.2 == ProcessingStrategy::DropAll).count() == if id < 5 { 10 } else { 5 });
        }
        let s = snap(&root);
        let mut at = Some(&s);
        for i in 0..5 {
            at = sub(at.unwrap(), &i.to_string());
            check!(at.is_some_and(|s| entries(s, "s") == 12 && s.items.len() == 37 + (i < 4) as usize));
        }
        cover!(round == 2 && !keep && through_clones);
        cover!(round == 2 && keep && !through_clones);
    }
});

/// takes its time
struct Slow(Calls, u8, u64, u32);
impl PutsSnapshot for Slow {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(name_of(b'A' + self.1), self.1);
        T { s: 2_000_000 + (self.1 as u64 + 1) * self.2, n: self.3 }.go();
    }
}
impl ProcessesTelemetryMessages for Slow {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.0.lock().unwrap().push((self.1, max, strategy));
        T { s: 1000 + (self.1 as u64 + 1) * self.2, n: self.3 }.go();
        ProcessingOutcome { processed: 1, ..ProcessingOutcome::default() }
    }
}
// However long processing takes.
//@ bounds=6_processors_that_each_take_1_ns_to_a_day_to_process_and_to_show,_2_of_them_on_a_mount_on_the_mount
harness!(c20_slow, {
    T::new(1000, 0).go();
    let calls: Calls = Arc::new(Mutex::new(Vec::new()));
    let (s, n) = [(0, 1), (0, 150_000_000), (2, 0), (100, 0), (86_400, 0)][pick(5)];
    let mut m = ProcessorMount::default();
    let mut inner = ProcessorMount::default();
    for i in 0..6u8 {
        let p = Slow(calls.clone(), i, s, n);
        match i {
            2 => inner.add_processor(p),
            3 => {
                inner.add_processor(p);
                m.add_processor(std::mem::take(&mut inner));
            }
            _ => m.add_processor(p),
        }
    }
    let max = u32v() as usize;
    for _ in 0..2 {
        let out = m.process(max, ProcessingStrategy::ProcessAll);
        check!(out.processed == 6);
        let got = std::mem::take(&mut *calls.lock().unwrap());
        check!(got.len() == 6);
        for (i, c) in got.iter().enumerate() {
            check!((c.0 == i as u8) & (c.1 == max));
        }
    }
    let s2 = snap(&m);
    check!(s2.items.len() == 6);
    cover!(s > 100);
});
