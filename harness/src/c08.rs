//! C08: a counter counts every occurrence it is given, and never goes down.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::*;

/// what an observation adds
fn amount(u: &Update) -> u64 {
    match u {
        Update::Observations(n, _) => *n,
        _ => 1,
    }
}
fn plus(a: u64, b: u64) -> u64 {
    a.saturating_add(b)
}

fn updates(n: usize) {
    let t = T::any(1 << 30).instant();
    let mut c = Counter::new("c");
    check!(c.get() == 0);
    check!(uint(&snap(&c), "c") == Some(0));
    let mut want = 0u64;
    for _ in 0..n {
        let u = match pick(3) {
            0 => update_of(Shape::Many, t),
            1 => update_of(Shape::One, t),
            _ => update_of(Shape::Unsigned, t),
        };
        want = plus(want, amount(&u));
        check!(c.update(&u) == 1);
        check!(c.get() == want);
    }
    check!(uint(&snap(&c), "c") == Some(want));
    cover!(want == u64::MAX);
    cover!(want == n as u64);
}
//@ bounds=5_updates_of_any_shape shared=updates
harness!(c08_updates, {
    updates(5)
});
//@ bounds=7_updates_of_any_shape tier=thorough shared=updates shards=3
harness!(c08_updates_more, {
    updates(7)
});
// Observations with a value count as one, whatever the value.
//@ bounds=one_observation_of_any_shape_and_contents
harness!(c08_shapes, {
    let t = T::any(1 << 30).instant();
    let mut c = Counter::new("c");
    let start = u64v();
    c.inc_by(start);
    let u = update_of(any_shape(), t);
    check!(c.update(&u) == 1);
    check!(c.get() == plus(start, amount(&u)));
    cover!(start == u64::MAX);
});
//@ bounds=any_count
harness!(c08_inc, {
    let mut c = Counter::new("c");
    let (a, b) = (u64v(), u64v());
    c.inc_by(a);
    check!(c.get() == a);
    c.inc();
    check!(c.get() == plus(a, 1));
    c.inc_by(b);
    check!(c.get() == plus(plus(a, 1), b));
    cover!(c.get() < u64::MAX);
});
// Through the whole machinery: filtered by label, counted, shown under its name.
//@ bounds=3_observations_of_any_shape_and_label
harness!(c08_end_to_end, {
    use metrix::cockpit::Cockpit;
    use metrix::processor::*;
    let t = T::any(1 << 30).instant();
    let a = u8v();
    let (tx, mut rx) = TelemetryProcessor::new_pair("p");
    rx.add_cockpit(Cockpit::new("k").panel(Panel::named(a, "q").counter(Counter::new("c"))));
    rx.add_handler(Counter::new("all").for_all_labels());
    let (mut want, mut all) = (0u64, 0u64);
    for _ in 0..3 {
        let x = u8v();
        let n = u32v() as u64;
        tx.observed(x, n, t);
        want += if x == a { n } else { 0 };
        all += n;
    }
    let out = rx.process(3, ProcessingStrategy::ProcessAll);
    check!(out.processed == 3);
    let s = snap(&rx);
    check!(s.find("p/k/q/c") == metrix::snapshot::FindItem::Found(&metrix::snapshot::ItemKind::UInt(want)));
    check!(s.find("p/all") == metrix::snapshot::FindItem::Found(&metrix::snapshot::ItemKind::UInt(all)));
    cover!(want > 0 && want < all);
});
// However many occurrences, one after the other.
//@ bounds=600_updates_of_3_shapes,_one_of_any_count
harness!(c08_many, {
    let t = T::new(5000, 0).instant();
    let mut c = Counter::new("c");
    let n = u32v() as u64;
    let mut want = 0u64;
    for i in 0..600u64 {
        let u = match i % 3 {
            0 => Update::Observation(t),
            1 => Update::Observations(if i == 301 { n } else { i }, t),
            _ => Update::ObservationWithValue(ObservedValue::SignedInteger(-5), t),
        };
        want += amount(&u);
        check!(c.update(&u) == 1);
        if i % 100 == 99 {
            check!(uint(&snap(&c), "c") == Some(want));
        }
    }
    check!(c.get() == want);
    cover!(n > 1 << 31);
});
