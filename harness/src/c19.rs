//! C19: the driver processes what is mounted on it, whatever is asked of it meanwhile.
//!
//! The driver runs its own thread. Threads are executed symbolically in the same run, switching
//! where a thread blocks or sleeps (and, with sx_preempt, at any atomic operation); time passes
//! when all threads wait.
use crate::kit::*;
use crate::sx::*;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

fn sleep_ms(n: u64) {
    std::thread::sleep(Duration::from_millis(n))
}
/// time enough for the driver to see a message and to process
fn settle() {
    sleep_ms(120)
}
fn quiet() -> DriverBuilder {
    DriverBuilder::default().set_driver_metrics(false).set_processing_strategy(ProcessingStrategy::ProcessAll)
}
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
/// waits for a future
fn wait<F: Future>(mut f: Pin<Box<F>>) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut c = Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut c) {
            Poll::Ready(r) => return r,
            Poll::Pending => std::thread::park(),
        }
    }
}
/// a processor that knows how it was called and tells when it is gone
struct Fake {
    calls: Arc<Mutex<Vec<usize>>>,
    gone: Arc<Mutex<bool>>,
}
impl Drop for Fake {
    fn drop(&mut self) {
        *self.gone.lock().unwrap() = true;
    }
}
impl PutsSnapshot for Fake {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("fake".to_string(), 1);
    }
}
impl ProcessesTelemetryMessages for Fake {
    fn process(&mut self, max: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.calls.lock().unwrap().push(max);
        ProcessingOutcome::default()
    }
}

/// one operation after the other, with time in between
fn ops(n: u8) -> (usize, u32) {
    T::new(5000, 0).go();
    let l = log();
    let mut d = quiet().build();
    let (ta, pa) = TelemetryProcessor::<u8>::new_pair("a");
    let (tb, pb) = TelemetryProcessor::<u8>::new_pair("b");
    d.add_processor(pa.handler(Rec::new(0, &l).named("h")));
    let mut pb = Some(pb.handler(Rec::new(1, &l).named("h")));
    let mut pending: Vec<(u8, u8)> = Vec::new();
    let (mut paused, mut drop_all) = (false, false);
    let (mut steps, mut lost, mut late) = (0u8, 0, 0);
    while steps < n {
        match pick(8) {
            0 => {
                ta.observed_one_now(steps);
                pending.push((0, steps));
            }
            1 => {
                tb.observed_one_now(steps);
                pending.push((1, steps));
            }
            2 => {
                d.pause();
                paused = true;
            }
            3 => {
                d.resume();
                paused = false;
            }
            4 => {
                d.change_processing_stragtegy(ProcessingStrategy::DropAll);
                drop_all = true;
            }
            5 => {
                d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
                drop_all = false;
            }
            6 => {
                let s = d.snapshot(false).unwrap();
                check!(sub(&s, "a").is_some_and(|a| uint(a, "h") == Some(0)));
                check!(sub(&s, "b").is_some() == pb.is_none());
            }
            _ => {
                if let Some(p) = pb.take() {
                    d.add_processor(p);
                }
            }
        }
        steps += 1;
        settle();
        let got = take(&l);
        let mut at = [0usize; 2];
        if !paused {
            let of = |k: u8| got.iter().filter(|s| s.by == k).map(|s| s.label).collect::<Vec<_>>();
            let seen = [of(0), of(1)];
            let mut still = Vec::new();
            for (k, label) in pending {
                if k == 1 && pb.is_some() {
                    still.push((k, label));
                } else if drop_all {
                    lost += 1;
                } else {
                    check!(seen[k as usize].get(at[k as usize]) == Some(&label));
                    at[k as usize] += 1;
                    late += (label + 1 < steps) as u32;
                }
            }
            pending = still;
        }
        check!(got.len() == at[0] + at[1]);
    }
    (lost, late)
}
// Whatever is observed is handed to the handlers of the processor soon and once, in order, unless
// the driver is paused (then as soon as it is resumed) or told to drop it; snapshots work always.
//@ bounds=5_operations_of_8_kinds:_observe_on_2_processors,_pause,_resume,_drop_all,_process_all,_snapshot,_add_a_processor shards=4 threads=1 noreplay=1 realtime=1
harness!(c19_ops, {
    let (lost, late) = ops(5);
    cover!(lost == 2);
    cover!(late == 3);
    cover!(late == 1 && lost == 1);
});
// The same with 6 operations.
//@ bounds=6_operations_of_8_kinds shards=8 threads=1 noreplay=1 realtime=1 tier=thorough timeout=800
harness!(c19_ops_more, {
    let (lost, late) = ops(6);
    cover!(lost == 2 && late == 2);
});
// Operations in quick succession are obeyed one after the other, too.
//@ bounds=5_operations_of_6_kinds_without_time_in_between:_pause,_resume,_drop_all,_process_all,_snapshot,_add_a_processor,_then_an_observation_on_each_processor shards=4 threads=1 noreplay=1 realtime=1
harness!(c19_burst, {
    T::new(5000, 0).go();
    let l = log();
    let mut d = quiet().build();
    let mut ts = Vec::new();
    let (mut paused, mut drop_all, mut looks) = (false, false, 0);
    for _ in 0..5 {
        match pick(6) {
            0 => {
                d.pause();
                paused = true;
            }
            1 => {
                d.resume();
                paused = false;
            }
            2 => {
                d.change_processing_stragtegy(ProcessingStrategy::DropAll);
                drop_all = true;
            }
            3 => {
                d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
                drop_all = false;
            }
            4 => {
                let s = d.snapshot(false).unwrap();
                check!(s.items.len() == ts.len());
                looks += 1;
            }
            _ => {
                let (t, p) = TelemetryProcessor::<u8>::new_pair(name_of(b'a' + ts.len() as u8));
                d.add_processor(p.handler(Rec::new(ts.len() as u8, &l)));
                ts.push(t);
            }
        }
    }
    sleep_ms(600);
    for t in &ts {
        t.observed_one_now(1);
    }
    sleep_ms(300);
    let got = take(&l).len();
    check!(got == if paused || drop_all { 0 } else { ts.len() });
    check!(d.snapshot(false).unwrap().items.len() == ts.len());
    if paused {
        d.resume();
        sleep_ms(300);
        check!(take(&l).len() == if drop_all { 0 } else { ts.len() });
    }
    cover!(looks == 1 && paused && drop_all && ts.len() == 2);
    cover!(ts.len() == 5);
});

// The age of what a driver processes is limited by its strategy: what is too old is dropped, what
// is young enough is processed, changes of a value are kept if so asked.
//@ bounds=one_observation_made_at_any_time_of_the_last_100_s,_maximum_age_of_30_s_(default)_or_60_s_(set_later),_keeping_deltas_or_not threads=1 noreplay=1 realtime=1
harness!(c19_old, {
    let made = T::any(100);
    let at = made.instant();
    T::new(1100, 0).go();
    let l = log();
    let k = pick(3);
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    let max = if k == 0 { 30 } else { 60 };
    if k > 0 {
        let s = ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(60), drop_deltas: k == 2 };
        d.change_processing_stragtegy(s);
        settle();
    }
    let (t, p) = TelemetryProcessor::<u8>::new_pair("a");
    let delta = coin();
    if delta {
        t.observed_one_value(1, ObservedValue::ChangedBy(1), at);
    } else {
        t.observed_one(1, at);
    }
    d.add_processor(p.handler(Rec::new(0, &l)));
    settle();
    let n = take(&l).len();
    let (age, _) = T::new(1100, 0).since(made);
    if delta && k != 2 {
        check!(n == 1);
    } else if n == 1 {
        check!(age <= max);
    } else {
        check!(n == 0);
        check!(age + 2 > max);
    }
    cover!(n == 1 && k == 1 && !delta);
    cover!(n == 0 && delta);
    cover!(n == 0 && k == 0);
});

// A snapshot has what is mounted, under the name of the driver if it has one, with title and
// description if asked for, with the metrics of the driver if they are on.
//@ bounds=with/without_name,_title,_description,_driver_metrics,_descriptive,_sync_or_async,_running_or_paused,_twice threads=1 noreplay=1 realtime=1
harness!(c19_snapshot, {
    T::new(5000, 0).go();
    let (named, titled, described, metrics) = (coin(), coin(), coin(), coin());
    let mut b = if named { DriverBuilder::new("drv") } else { DriverBuilder::default() };
    if titled {
        b = b.set_title("tt");
    }
    if described {
        b = b.set_description("dd");
    }
    let mut d = if !named && !titled && !described && metrics && coin() {
        TelemetryDriver::default()
    } else {
        b.set_driver_metrics(metrics).build()
    };
    check!(Descriptive::title(&d) == if titled { Some("tt") } else { None });
    check!(Descriptive::description(&d) == if described { Some("dd") } else { None });
    check!(d.name() == if named { Some("drv") } else { None });
    let (_t, p) = TelemetryProcessor::<u8>::new_pair("a");
    let l = log();
    d.add_processor(p.handler(Rec::new(7, &l).named("h")));
    d.add_snapshooter(Put("s", 9));
    if coin() {
        d.pause();
    }
    let descriptive = coin();
    let by_future = coin();
    for _ in 0..2 {
        let s = if by_future {
            wait(Box::pin(d.snapshot_async(descriptive))).unwrap()
        } else {
            d.snapshot(descriptive).unwrap()
        };
        let s = if named {
            check!(s.items.len() == 1);
            sub(&s, "drv").unwrap()
        } else {
            &s
        };
        let t = |n: &str| match item(s, n) {
            Some(ItemKind::Text(t)) => Some(t.clone()),
            _ => None,
        };
        check!(t("_title").as_deref() == if titled && descriptive { Some("tt") } else { None });
        check!(t("_description").as_deref() == if described && descriptive { Some("dd") } else { None });
        check!(uint(sub(s, "a").unwrap(), "h") == Some(7));
        check!(uint(s, "s") == Some(9));
        check!(sub(s, "_metrix").is_some() == metrics);
        let extra = (titled && descriptive) as usize + (described && descriptive) as usize + metrics as usize;
        check!(s.items.len() == 2 + extra);
    }
    cover!(named && titled && described && metrics && descriptive && by_future);
});

// The thread of a driver and all it holds go with the last clone of the driver and not before;
// a snapshot that is still asked for then is delivered or refused, not left waiting.
//@ bounds=2_clones_dropped_in_either_order,_running_or_paused,_with_a_pending_snapshot_or_not threads=1 noreplay=1 realtime=1
harness!(c19_stops, {
    T::new(5000, 0).go();
    let calls = Arc::new(Mutex::new(Vec::new()));
    let gone = Arc::new(Mutex::new(false));
    let mut d = quiet().build();
    d.add_processor(Fake { calls: calls.clone(), gone: gone.clone() });
    settle();
    let e = d.clone();
    let paused = coin();
    if paused {
        d.pause();
        settle();
    }
    let d = if coin() {
        drop(d);
        e
    } else {
        drop(e);
        d
    };
    settle();
    check!(!*gone.lock().unwrap());
    let n = calls.lock().unwrap().len();
    check!(n > 0);
    settle();
    check!((calls.lock().unwrap().len() > n) == !paused);
    check!(d.snapshot(false).unwrap().items.len() == 1);
    let pending = if coin() { Some(d.snapshot_async(false)) } else { None };
    drop(d);
    settle();
    check!(*gone.lock().unwrap());
    let n = calls.lock().unwrap().len();
    settle();
    check!(calls.lock().unwrap().len() == n);
    if let Some(f) = pending {
        if let Ok(s) = wait(Box::pin(f)) {
            check!(s.items.len() == 1);
        }
    }
    cover!(paused);
});

// The driver is never left without an answer: under every schedule with 2 preemptions a snapshot
// asked for just before the driver goes away ends, and snapshots asked for by two threads are whole.
//@ bounds=1_pending_snapshot,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=8
harness!(c19_last_words, {
    T::new(5000, 0).go();
    let d = quiet().build();
    unsafe { sx_preempt(2) };
    let f = d.snapshot_async(false);
    if coin() {
        std::thread::sleep(Duration::from_millis(1));
    }
    drop(d);
    let r = wait(Box::pin(f));
    unsafe { sx_preempt(0) };
    if let Ok(s) = &r {
        check!(s.items.is_empty());
    }
    cover!(r.is_ok());
    cover!(r.is_err());
});
//@ bounds=2_threads_with_one_snapshot_each,_a_processor_added_by_one_of_them,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=8
harness!(c19_two_threads, {
    T::new(5000, 0).go();
    let l = log();
    let mut d = quiet().build();
    let (t, p) = TelemetryProcessor::<u8>::new_pair("a");
    let p = p.handler(Rec::new(7, &l).named("h"));
    let e = d.clone();
    unsafe { sx_preempt(2) };
    let h = std::thread::spawn(move || {
        t.observed_one_now(1);
        let s = e.snapshot(false).unwrap();
        s.items.len()
    });
    d.add_processor(p);
    let s = d.snapshot(false).unwrap();
    check!(s.items.len() == 1);
    let n = h.join().unwrap();
    unsafe { sx_preempt(0) };
    check!(n <= 1);
    settle();
    check!(take(&l).len() == 1);
    cover!(n == 0);
    cover!(n == 1);
});

// The metrics of the driver are about what happened.
//@ bounds=2_rounds_of_0_or_1_or_2_observations,_the_second_dropped_or_not,_then_50_or_70_s_without_any threads=1 noreplay=1 realtime=1 cost=9
harness!(c19_metrics, {
    T::new(5000, 0).go();
    let l = log();
    let mut d = DriverBuilder::default().build();
    let (t, p) = TelemetryProcessor::<u8>::new_pair("a");
    d.add_processor(p.handler(Rec::new(0, &l).ret(3)));
    let n = pick(3);
    for _ in 0..n {
        t.observed_one_now(1);
    }
    sleep_ms(40);
    let drops = coin();
    if drops {
        d.change_processing_stragtegy(ProcessingStrategy::DropAll);
        sleep_ms(40);
    }
    let m = pick(3);
    for _ in 0..m {
        t.observed_one_now(1);
    }
    sleep_ms(40);
    let (processed, dropped) = if drops { (n, m) } else { (n + m, 0) };
    let count = |s: &Snapshot, name: &str| match sub(s, name) {
        Some(s) => uint(s, "count").unwrap_or(0) as usize,
        None => 0,
    };
    let s = d.snapshot(false).unwrap();
    let x = sub(&s, "_metrix").unwrap();
    check!(count(x, "observations_processed_per_second") == processed);
    check!(count(x, "observations_dropped_per_second") == dropped);
    check!(count(x, "instruments_updated_per_second") == 3 * processed);
    check!(count(x, "snapshots_per_second") == 1);
    check!(count(x, "collections_per_second") >= 3);
    check!(boolean(x, "dropped_observations_alarm") == Some(dropped > 0));
    check!(boolean(x, "inactivity_alarm") == Some(false));
    for (name, total) in [("observations_processed_per_collection", processed), ("observations_dropped_per_collection", dropped)] {
        check!((count(x, name) > 0) == (total > 0));
        if total > 0 {
            let h = sub(x, name).unwrap();
            check!(int(h, "min") >= Some(1));
            check!(int(h, "max") <= Some(total as i64));
        }
    }
    check!(count(x, "collection_times_us") >= 3);
    check!(count(x, "snapshots_times_us") == 1);
    let queued = sub(x, "observations_enqueued").unwrap();
    check!(whole(queued, "current") == Some(0));
    check!(whole(queued, "bottom") == Some(0));
    let long = coin();
    T::new(if long { 5070 } else { 5050 }, 0).go();
    sleep_ms(40);
    let s = d.snapshot(false).unwrap();
    let x = sub(&s, "_metrix").unwrap();
    check!(count(x, "observations_processed_per_second") == processed);
    check!(count(x, "observations_dropped_per_second") == dropped);
    check!(count(x, "snapshots_per_second") == 2);
    check!(boolean(x, "dropped_observations_alarm") == Some(dropped > 0 && !long));
    check!(boolean(x, "inactivity_alarm") == Some(long));
    cover!(dropped == 2 && n == 1 && long);
});

// A driver mounted on something is shown there and goes on by itself.
//@ bounds=a_driver_on_a_driver_or_on_a_mount,_the_inner_one_running_or_paused,_the_outer_one_running_or_paused threads=1 noreplay=1 realtime=1
harness!(c19_mounted, {
    T::new(5000, 0).go();
    let l = log();
    let mut inner = DriverBuilder::new("inner").set_driver_metrics(false).build();
    let (t, p) = TelemetryProcessor::<u8>::new_pair("a");
    inner.add_processor(p.handler(Rec::new(7, &l).named("h")));
    let on_driver = coin();
    let mut outer = quiet().build();
    let mut mount = ProcessorMount::new("mount");
    if on_driver {
        outer.add_processor(inner.clone());
    } else {
        mount.add_processor(inner.clone());
    }
    settle();
    let (stop_inner, stop_outer) = (coin(), coin());
    if stop_inner {
        inner.pause();
    }
    if stop_outer {
        outer.pause();
    }
    settle();
    t.observed_one_now(1);
    settle();
    if !on_driver {
        let o = mount.process(10, ProcessingStrategy::ProcessAll);
        check!(o.processed == 0);
    }
    check!(take(&l).len() == !stop_inner as usize);
    let s = if on_driver { outer.snapshot(false).unwrap() } else { snap(&mount) };
    let s = if on_driver { Some(&s) } else { sub(&s, "mount") };
    let i = sub(s.unwrap(), "inner");
    check!(i.is_some_and(|i| sub(i, "a").is_some_and(|a| uint(a, "h") == Some(7))));
    cover!(on_driver && stop_outer && !stop_inner);
});

// However much there is to do and however many do it.
//@ bounds=1200_observations_on_each_of_2_processors_and_one_on_each_of_20_others,_15_snapshooters,_with_or_without_a_pause_in_between threads=1 noreplay=1 realtime=1
harness!(c19_many, {
    T::new(5000, 0).go();
    let l = log();
    let mut d = quiet().build();
    let mut ts = Vec::new();
    for i in 0..22u8 {
        let (t, p) = TelemetryProcessor::<u8>::new_pair(name_of(b'A' + i));
        d.add_processor(p.handler(Rec::new(i, &l)));
        ts.push(t);
    }
    for i in 0..15u64 {
        d.add_snapshooter(metrix::instruments::polled::ConstantValue::new(format!("snapshooter{}", i), i));
    }
    sleep_ms(800);
    let paused = coin();
    if paused {
        d.pause();
        settle();
    }
    let v = u64v();
    for k in 0..1200 {
        for t in &ts[..2] {
            t.observed_one_value(k as u8, v, T::new(4000, k as u32).instant());
        }
    }
    for t in &ts[2..] {
        t.observed_one_value(7, v, T::new(4000, 0).instant());
    }
    if paused {
        settle();
        check!(take(&l).is_empty());
        d.resume();
    }
    sleep_ms(500);
    let got = take(&l);
    check!(got.len() == 2420);
    let mut n = [0usize; 22];
    for g in &got {
        check!(g.bits == v);
        if g.by < 2 {
            check!(g.at == T::new(4000, n[g.by as usize] as u32).instant());
        }
        n[g.by as usize] += 1;
    }
    for i in 0..22 {
        check!(n[i] == if i < 2 { 1200 } else { 1 });
    }
    for descriptive in [true, false] {
        let s = d.snapshot(descriptive).unwrap();
        check!(s.items.len() == 37);
        for i in 0..15 {
            check!(uint(&s, &format!("snapshooter{}", i)) == Some(i));
        }
    }
    cover!(paused);
});

// Whichever thread drops the last clone: the driver ends, not before, and what was sent to it before
// is gone.
//@ bounds=2_clones,_each_dropped_by_its_own_thread_after_use,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=5
harness!(c19_drops, {
    T::new(5000, 0).go();
    let calls = Arc::new(Mutex::new(Vec::new()));
    let gone = Arc::new(Mutex::new(false));
    let mut d = quiet().build();
    d.add_processor(Fake { calls: calls.clone(), gone: gone.clone() });
    let e = d.clone();
    let gone2 = gone.clone();
    let wait = coin();
    unsafe { sx_preempt(2) };
    let h = std::thread::spawn(move || {
        let f = e.clone();
        drop(e);
        let ok = f.snapshot(false).is_ok();
        let g = *gone2.lock().unwrap();
        (ok, g)
    });
    check!(d.snapshot(false).unwrap().items.len() == 1);
    if wait {
        sleep_ms(30);
    }
    drop(d);
    let (ok, g) = h.join().unwrap();
    unsafe { sx_preempt(0) };
    check!(ok);
    check!(!g);
    settle();
    check!(*gone.lock().unwrap());
    let n = calls.lock().unwrap().len();
    settle();
    check!(calls.lock().unwrap().len() == n);
    cover!(wait);
});
// Pausing and resuming from several threads: after all the last word counts, nothing is lost.
//@ bounds=2_threads_that_pause_and_resume_and_observe,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=5
harness!(c19_pausing, {
    T::new(5000, 0).go();
    let l = log();
    let mut d = quiet().build();
    let (t, p) = TelemetryProcessor::<u8>::new_pair("a");
    d.add_processor(p.handler(Rec::new(7, &l)));
    let e = d.clone();
    let t2 = t.clone();
    unsafe { sx_preempt(2) };
    let h = std::thread::spawn(move || {
        e.pause();
        t2.observed_one_now(1);
        e.resume();
    });
    d.pause();
    t.observed_one_now(2);
    h.join().unwrap();
    unsafe { sx_preempt(0) };
    d.pause();
    sleep_ms(400);
    // what was sent when the driver was not paused for long enough may still be waiting
    let before = take(&l).len();
    t.observed_one_now(3);
    sleep_ms(400);
    check!(take(&l).is_empty());
    d.resume();
    sleep_ms(400);
    let after = take(&l);
    check!(before + after.len() == 3);
    check!(after.last().map(|s| s.label) == Some(3));
    cover!();
});

// However little and however much of each kind is mounted, all of it is shown.
//@ bounds=0_or_1_or_12_processors,_0_or_1_or_12_or_40_snapshooters,_mounted_before_or_after_a_first_look,_with/without_name_and_metrics,_descriptive_or_not,_sync_or_async threads=1 noreplay=1 realtime=1
harness!(c19_wide, {
    T::new(5000, 0).go();
    let (named, metrics, descriptive) = (coin(), coin(), coin());
    let b = if named { DriverBuilder::new("drv") } else { DriverBuilder::default() };
    let mut d = b.set_driver_metrics(metrics).build();
    let p = [0, 1, 12][pick(3)];
    let s = [0, 1, 12, 40][pick(4)];
    if coin() {
        check!(d.snapshot(descriptive).unwrap().items.len() == (named || metrics) as usize);
    }
    for i in 0..p.max(s) {
        if i < p {
            d.add_processor(TelemetryProcessor::<u8>::new_pair(name_of(b'a' + i as u8)).1);
        }
        if i < s {
            d.add_snapshooter(metrix::instruments::polled::ConstantValue::new(format!("s{}", i), i as u64));
        }
    }
    sleep_ms(1000);
    let x = if coin() {
        wait(Box::pin(d.snapshot_async(descriptive))).unwrap()
    } else {
        d.snapshot(descriptive).unwrap()
    };
    let x = if named {
        check!(x.items.len() == 1);
        sub(&x, "drv").unwrap()
    } else {
        &x
    };
    check!(x.items.len() == p + s + metrics as usize);
    for i in 0..p {
        check!(entries(x, &name_of(b'a' + i as u8)) == 1);
    }
    for i in 0..s {
        check!(uint(x, &format!("s{}", i)) == Some(i as u64));
    }
    cover!(p == 12 && s == 40 && named);
    cover!(p == 0 && s == 12 && descriptive);
});

/// always has (or says it has) much to do, which takes a millisecond
struct Busy {
    calls: Arc<Mutex<Vec<(usize, ProcessingStrategy)>>>,
    gone: Arc<Mutex<bool>>,
    /// processed, dropped
    says: (usize, usize),
}
impl Drop for Busy {
    fn drop(&mut self) {
        *self.gone.lock().unwrap() = true;
    }
}
impl PutsSnapshot for Busy {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("busy".to_string(), 1);
    }
}
impl ProcessesTelemetryMessages for Busy {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        sleep_ms(1);
        self.calls.lock().unwrap().push((max, strategy));
        ProcessingOutcome { processed: self.says.0, dropped: self.says.1, ..ProcessingOutcome::default() }
    }
}

// A processor that is always busy keeps neither the other processors nor the driver from anything.
//@ bounds=a_processor_that_always_reports_1000_or_101_or_a_million_processed_or_1_or_1000_dropped_or_nothing,_before_or_after_another,_with/without_metrics,_all_sequences_of_3_operations:_observe,_pause_and_resume,_snapshot,_change_of_strategy threads=1 noreplay=1 realtime=1 shards=4 cost=8
harness!(c19_busy, {
    T::new(5000, 0).go();
    let l = log();
    let calls = Arc::new(Mutex::new(Vec::new()));
    let gone = Arc::new(Mutex::new(false));
    let says = [(1000, 0), (101, 0), (1_000_000, 0), (0, 1), (0, 1000), (0, 0)][pick(6)];
    let idle = says == (0, 0);
    let metrics = coin();
    let mut d = quiet().set_driver_metrics(metrics).build();
    let b = Busy { calls: calls.clone(), gone: gone.clone(), says };
    let (t, p) = TelemetryProcessor::<u8>::new_pair("p");
    let p = p.handler(Rec::new(0, &l));
    if coin() {
        d.add_processor(b);
        d.add_processor(p);
    } else {
        d.add_processor(p);
        d.add_processor(b);
    }
    settle();
    let mut drop_all = false;
    for i in 0..3u8 {
        match pick(4) {
            0 => {
                t.observed_one_now(i);
                settle();
                let got = take(&l);
                check!(got.len() == if drop_all { 0 } else { 1 });
            }
            1 => {
                d.pause();
                settle();
                calls.lock().unwrap().clear();
                t.observed_one_now(i);
                settle();
                check!(calls.lock().unwrap().is_empty());
                check!(take(&l).is_empty());
                d.resume();
                settle();
                check!(take(&l).len() == if drop_all { 0 } else { 1 });
                cover!();
            }
            2 => {
                let s = d.snapshot(false).unwrap();
                check!(int(&s, "busy") == Some(1));
                check!(sub(&s, "p").is_some());
            }
            _ => {
                drop_all = !drop_all;
                d.change_processing_stragtegy(if drop_all {
                    ProcessingStrategy::DropAll
                } else {
                    ProcessingStrategy::ProcessAll
                });
                settle();
            }
        }
        let now = std::mem::take(&mut *calls.lock().unwrap());
        // with nothing in between the calls follow each other
        settle();
        let more = std::mem::take(&mut *calls.lock().unwrap());
        check!(more.len() > if idle { 5 } else { 50 });
        for c in now.iter().chain(more.iter()) {
            check!(c.0 > 0);
        }
        for c in more.iter() {
            check!(c.1 == if drop_all { ProcessingStrategy::DropAll } else { ProcessingStrategy::ProcessAll });
        }
    }
    check!(!*gone.lock().unwrap());
    drop(d);
    settle();
    check!(*gone.lock().unwrap());
    cover!(idle);
    cover!(!idle && metrics);
});

/// takes its time to process and to show what it has
struct Slow {
    process: u64,
    show: u64,
}
impl PutsSnapshot for Slow {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        sleep_ms(self.show);
        into.push("slow".to_string(), 1);
    }
}
impl ProcessesTelemetryMessages for Slow {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        sleep_ms(self.process);
        ProcessingOutcome::default()
    }
}
// However long processing or making a snapshot takes, what was asked for is done, in order.
//@ bounds=a_processor_that_takes_0_or_150_ms_or_10_s_or_1000_s_to_process_and_as_long_to_show,_2_snapshots_by_one_or_two_threads,_sync_or_async,_an_observation_in_between,_the_driver_going_away_or_not threads=1 noreplay=1 cost=3
harness!(c19_slow, {
    const TAKES: [u64; 4] = [0, 150, 10_000, 1_000_000];
    T::new(5000, 0).go();
    let l = log();
    let mut d = quiet().set_driver_metrics(coin()).build();
    let slow = Slow { process: TAKES[pick(4)], show: TAKES[pick(4)] };
    let enough = 3 * slow.process + 200;
    d.add_processor(slow);
    let (t, p) = TelemetryProcessor::<u8>::new_pair("p");
    d.add_processor(p.handler(Rec::new(0, &l)));
    // the driver is in the midst of something
    sleep_ms([0, 7, 160, 1500][pick(4)]);
    t.observed_one_now(1);
    let other = if coin() {
        let d = d.clone();
        Some(std::thread::spawn(move || {
            let s = d.snapshot(false).unwrap();
            check!(int(&s, "slow") == Some(1));
            check!(sub(&s, "p").is_some());
        }))
    } else {
        None
    };
    let s = if coin() { d.snapshot(false).unwrap() } else { wait(Box::pin(d.snapshot_async(false))).unwrap() };
    check!(int(&s, "slow") == Some(1));
    check!(sub(&s, "p").is_some());
    // one that nobody waits for
    drop(d.snapshot_async(true));
    t.observed_one_now(2);
    let s = d.snapshot(true).unwrap();
    check!(s.items.len() >= 2);
    let waited = other.is_some();
    if let Some(o) = other {
        o.join().unwrap();
    }
    if coin() {
        let last = d.snapshot_async(false);
        drop(d);
        if let Ok(s) = wait(Box::pin(last)) {
            check!(int(&s, "slow") == Some(1));
        }
        cover!(waited);
    } else {
        sleep_ms(enough);
        let got = take(&l);
        check!(got.len() == 2);
        check!(got[0].label == 1);
        check!(got[1].label == 2);
        cover!(!waited);
    }
});

/// says something once
struct Once(Arc<Mutex<Vec<[usize; 4]>>>);
impl PutsSnapshot for Once {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Once {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let x = self.0.lock().unwrap().pop().unwrap_or_default();
        ProcessingOutcome { processed: x[0], dropped: x[1], instruments_updated: x[2], observations_enqueued: x[3] }
    }
}
// The metrics of the driver are the sums of what its processors report.
//@ bounds=2_processors_that_once_report_any_4_numbers_below_2^16_or_none,_looked_at_soon,_50_or_70_s_later threads=1 noreplay=1 cost=4
harness!(c19_reported, {
    T::new(5000, 0).go();
    let mut d = DriverBuilder::default().build();
    let (a, b) = (Arc::new(Mutex::new(Vec::new())), Arc::new(Mutex::new(Vec::new())));
    d.add_processor(Once(a.clone()));
    d.add_processor(Once(b.clone()));
    sleep_ms(100);
    let mut sum = [0u64; 4];
    let both = coin();
    for (i, m) in [&a, &b].iter().enumerate() {
        if i == 0 || both {
            let x = [u16v() as usize, u16v() as usize, u16v() as usize, u16v() as usize];
            for k in 0..4 {
                sum[k] += x[k] as u64;
            }
            // nothing is processed in between: the main thread does not wait
            m.lock().unwrap().push(x);
        }
    }
    sleep_ms(100);
    let gap = [0u64, 50, 70][pick(3)];
    if gap > 0 {
        T::new(5000 + gap, 0).go();
        sleep_ms(40);
    }
    let s = d.snapshot(false).unwrap();
    let x = sub(&s, "_metrix").unwrap();
    check!(x.items.len() == 14);
    let count = |name: &str| sub(x, name).and_then(|s| uint(s, "count")).unwrap_or(1 << 40);
    check!(count("observations_processed_per_second") == sum[0]);
    check!(count("observations_dropped_per_second") == sum[1]);
    check!(count("instruments_updated_per_second") == sum[2]);
    for (name, k) in [("observations_processed_per_collection", 0), ("observations_dropped_per_collection", 1)] {
        check!(count(name) == (sum[k] > 0) as u64);
        if sum[k] > 0 {
            let h = sub(x, name).unwrap();
            check!(int(h, "max") == Some(sum[k] as i64));
            check!(int(h, "min") == Some(sum[k] as i64));
        }
    }
    let q = sub(x, "observations_enqueued").unwrap();
    check!(int(q, "current") == Some(0));
    check!(int(q, "bottom") == Some(0));
    if gap < 60 {
        check!(int(q, "peak") == Some(sum[3] as i64));
    } else {
        check!(int(q, "peak") == Some(0));
    }
    check!(boolean(x, "dropped_observations_alarm") == Some(sum[1] > 0 && gap < 60));
    if gap < 60 {
        check!(boolean(x, "inactivity_alarm") == Some(false));
    } else {
        check!(boolean(x, "inactivity_alarm") == Some(true));
    }
    let ratio = sub(x, "iteration_update_ratio_per_mille").unwrap();
    check!(int(ratio, "current") >= Some(0));
    check!(int(ratio, "peak") <= Some(1000));
    check!(count("iteration_update_ratio_per_mille_histo") >= 3);
    cover!(sum[0] > 100 && sum[1] == 0 && both);
    cover!(sum[1] > 0 && gap == 70);
});
