//! C05: panels, cockpits and adapters hand an accepted observation to each of their parts once.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::*;

fn count(v: &[Seen], id: u8) -> usize {
    v.iter().filter(|s| s.by == id).count()
}
fn all_are(v: &[Seen], o: &Seen) -> bool {
    v.iter().fold(true, |a, s| {
        a & (s.kind == o.kind) & (s.bits == o.bits) & (s.at == o.at)
    })
}

// A panel with every kind of part: a label it accepts reaches every part whose own filter accepts
// it, once; the number of updated instruments is the sum over the parts; other labels reach nothing.
//@ bounds=byte_labels,_any_observation,_one_nested_panel
harness!(c05_panel, {
    let l = log();
    let t = T::any(1 << 30).instant();
    let (lp, ln, lc, x) = (u8v(), u8v(), u8v(), u8v());
    let (r1, r2, r3, r4) = (u8v() as usize, u8v() as usize, u8v() as usize, u8v() as usize);
    let mut p = Panel::accept(lp);
    p.add_handler(Rec::new(1, &l).ret(r1));
    p.add_instrument(RecI::new(2, r2, &l));
    let mut q = Panel::accept(ln);
    q.add_handler(Rec::new(3, &l).ret(r3));
    p.add_panel(q);
    p.add_handler(InstrumentAdapter::accept(lc, RecI::new(4, r4, &l)));
    let o = any_obs(x, t);
    let want = seen(0, &o);
    check!(p.accepts_label(&x) == (x == lp));
    let n = p.handle_observation(&o);
    let got = take(&l);
    let a = (x == lp) as usize;
    check!(count(&got, 1) == a);
    check!(count(&got, 2) == a);
    let b = if x == ln { a } else { 0 };
    let c = if x == lc { a } else { 0 };
    check!(count(&got, 3) == b);
    check!(count(&got, 4) == c);
    check!(n == a * (r1 + r2) + b * r3 + c * r4);
    check!(all_are(&got, &want));
    cover!(a == 1 && b == 1 && c == 1);
    cover!(a == 0 && x == ln);
});

// The panel's own instruments are updated like the others and counted; adding a second counter
// (gauge, meter, histogram) keeps both.
//@ bounds=1_or_2_instruments_of_each_kind,_one_observation_that_all_can_use
harness!(c05_slots, {
    T::new(5000, 0).go();
    let t = std::time::Instant::now();
    let two = coin();
    let accept = coin();
    let which = pick(4);
    let mut p: Panel<u8> = if accept { Panel::accept_all() } else { Panel::accept(AcceptNoLabel) };
    let n = 1 + two as usize;
    for k in 0..n {
        let name = if k == 0 { "a" } else { "b" };
        match which {
            0 => p.add_counter(Counter::new(name)),
            1 => p.add_gauge(Gauge::new(name)),
            2 => p.add_meter(Meter::new(name)),
            _ => p.add_histogram(Histogram::new(name)),
        }
    }
    let v = u32v();
    let updated = p.handle_observation(&Observation::observed_one_value(0, v, t));
    check!(updated == if accept { n } else { 0 });
    let s = snap(&p);
    for k in 0..n {
        let name = if k == 0 { "a" } else { "b" };
        match which {
            0 => {
                check!(uint(&s, name) == Some(accept as u64));
            }
            1 => {
                check!(whole(&s, name) == if accept { Some(v as i128) } else { None });
            }
            2 => {
                let m = sub(&s, name);
                check!(m.is_some());
                check!(uint(m.unwrap(), "count") == Some(accept as u64));
            }
            _ => {
                let m = sub(&s, name);
                check!(m.is_some());
                check!(uint(m.unwrap(), "count") == Some(accept as u64));
            }
        }
    }
    cover!(two && accept);
    cover!(!accept);
});

// A cockpit hands every observation to all its handlers and panels; a processor to all its cockpits
// and handlers; updates add up.
//@ bounds=2_cockpits,_2_panels,_2_handlers
harness!(c05_cockpit, {
    let l = log();
    let t = T::any(1 << 30).instant();
    let x = u8v();
    let (la, lb) = (u8v(), u8v());
    let r: [usize; 6] = [u8v() as usize, u8v() as usize, u8v() as usize, u8v() as usize, u8v() as usize, u8v() as usize];
    let mut c = Cockpit::new("c");
    let mut p = Panel::accept(la);
    p.add_handler(Rec::new(0, &l).ret(r[0]));
    let mut q = Panel::named(lb, "q");
    q.add_handler(Rec::new(1, &l).ret(r[1]));
    c.add_handler(Rec::new(2, &l).ret(r[2]));
    c.add_panel(p);
    c.add_panel(q);
    c.add_handler(Rec::new(3, &l).ret(r[3]));
    let mut d = Cockpit::without_name();
    d.add_handler(Rec::new(4, &l).ret(r[4]));
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_cockpit(c);
    rx.add_handler(Rec::new(5, &l).ret(r[5]));
    rx.add_cockpit(d);
    let o = any_obs(x, t);
    let want = seen(0, &o);
    tx.transmit(o);
    let out = rx.process(1, ProcessingStrategy::ProcessAll);
    let got = take(&l);
    let a = if x == la { 1 } else { 0 };
    let b = if x == lb { 1 } else { 0 };
    check!(count(&got, 0) == a);
    check!(count(&got, 1) == b);
    check!(count(&got, 2) == 1);
    check!(count(&got, 3) == 1);
    check!(count(&got, 4) == 1);
    check!(count(&got, 5) == 1);
    check!(all_are(&got, &want));
    check!(out.instruments_updated == a * r[0] + b * r[1] + r[2] + r[3] + r[4] + r[5]);
    cover!(a == 1 && b == 1);
    cover!(a == 0 && b == 0);
});

// Adapters: their filter decides, the modifier sees label and update and its result is what the
// instrument gets.
//@ bounds=byte_labels,_any_observation,_all_constructors
harness!(c05_adapter, {
    let l = log();
    let t = T::any(1 << 30).instant();
    let (a, b, x) = (u8v(), u8v(), u8v());
    let r = u8v() as usize;
    let i = RecI::new(1, r, &l);
    let way = pick(9);
    let mut ad: InstrumentAdapter<u8, RecI> = match way {
        0 => InstrumentAdapter::new(i),
        1 => InstrumentAdapter::accept((a, b), i),
        2 => InstrumentAdapter::for_label(a, i),
        3 => InstrumentAdapter::for_labels(vec![a, b], i),
        4 => InstrumentAdapter::by_predicate(move |l| *l >= a && *l <= b, i),
        5 => InstrumentAdapter::deaf(i),
        6 => InstrumentAdapter::for_label(a, i).accept_no_labels(),
        7 => InstrumentAdapter::for_label(a, i).accept_all_labels(),
        _ => InstrumentAdapter::for_labels(Vec::new(), i),
    };
    let accepts = match way {
        0 | 7 => true,
        1 | 3 => (x == a) | (x == b),
        2 => x == a,
        4 => (a <= x) & (x <= b),
        _ => false,
    };
    let modify = coin();
    if modify {
        ad = ad.modify_with(|l, u| match u {
            Update::Observation(t) => Update::Observations(*l as u64, t),
            Update::Observations(n, t) => {
                Update::ObservationWithValue(ObservedValue::UnsignedInteger(n ^ *l as u64), t)
            }
            Update::ObservationWithValue(_, t) => Update::Observation(t),
        });
    }
    let o = any_obs(x, t);
    let mut want = seen(1, &o);
    if modify {
        if want.kind == 1 {
            want.kind = 0;
            want.bits = x as u64;
        } else if want.kind == 0 {
            want.kind = 3;
            want.bits ^= x as u64;
        } else {
            want.kind = 1;
            want.bits = 0;
        }
    }
    let n = ad.handle_observation(&o);
    let got = take(&l);
    if accepts {
        check!(got.len() == 1);
        check!(n == r);
        check!(all_are(&got, &want));
        cover!(modify);
    } else {
        check!(got.is_empty());
        check!(n == 0);
        cover!();
    }
});

// Any number of parts, at any depth.
//@ bounds=5_levels_of_panels_with_5_handlers_each,_a_cockpit_with_5_panels,_byte_labels
harness!(c05_many, {
    let l = log();
    let t = T::new(5000, 3).instant();
    let (a, b, x) = (u8v(), u8v(), u8v());
    let r = u8v() as usize;
    let full = |id: u8, f: LabelFilter<u8>| {
        let mut p = Panel::accept(f);
        for i in 0..5 {
            p.add_handler(Rec::new(id + i, &l).ret(r + i as usize));
        }
        p
    };
    // 0..25: one in another, the middle one only takes a
    let mut p = full(0, AcceptAllLabels.into());
    for k in 1..5 {
        let f: LabelFilter<u8> = if k == 2 { a.into() } else { AcceptAllLabels.into() };
        let mut q = full(5 * k, f);
        q.add_panel(p);
        p = q;
    }
    let mut c = Cockpit::new("c");
    c.add_panel(p);
    // 25..45: next to each other
    for k in 5..9 {
        c.add_panel(Panel::accept(b).panel(full(5 * k, AcceptAllLabels.into())));
    }
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    rx.add_cockpit(c);
    // 45..50
    for i in 45..50 {
        rx.add_handler(Rec::new(i, &l).ret(r));
    }
    let o = any_obs(x, t);
    let want = seen(0, &o);
    tx.transmit(o);
    let out = rx.process(1, ProcessingStrategy::ProcessAll);
    let got = take(&l);
    check!(all_are(&got, &want));
    let (na, nb) = ((x == a) as usize, (x == b) as usize);
    for i in 0..50u8 {
        let n = count(&got, i);
        check!(n == if i < 15 { na } else if i < 25 { 1 } else if i < 45 { nb } else { 1 });
    }
    check!(out.instruments_updated == 5 * r + (5 * r + 10) * (3 * na + 2 + 4 * nb));
    cover!(na == 1 && nb == 0);
    cover!(na == 0 && nb == 1);
});

// Side by side: many handlers, panels of the same or no name, cockpits without a name, several
// instruments of each kind, more of everything put there later.
//@ bounds=a_panel_with_70_handlers,_20_panels_and_3_instruments_of_each_kind,_40_panels,_12_cockpits,_byte_labels
harness!(c05_wide, {
    T::new(5000, 3).go();
    let l = log();
    let (a, x) = (u8v(), u8v());
    let late = coin();
    let mut p = Panel::accept_all();
    let fill = |p: &mut Panel<u8>| {
        for _ in 0..70 {
            p.add_handler(Rec::new(1, &l).ret(2));
        }
    };
    let group = |p: &mut Panel<u8>| {
        for i in 0..20 {
            let mut q = match i % 4 {
                0 => Panel::accept(a),
                1 => Panel::named(a, "same"),
                2 => Panel::accept_all_named("same"),
                _ => Panel::accept_all(),
            };
            q.add_handler(Rec::new(2 + (i % 4) as u8, &l).ret(1));
            p.add_panel(q);
        }
    };
    if late {
        fill(&mut p);
        group(&mut p);
    }
    for i in 0..3u8 {
        p.add_counter(Counter::new(format!("c{}", i)));
        p.add_gauge(Gauge::new(format!("g{}", i)));
        p.add_meter(Meter::new(format!("m{}", i)));
        p.add_histogram(Histogram::new(format!("h{}", i)));
    }
    if !late {
        fill(&mut p);
        group(&mut p);
    }
    let mut c = Cockpit::new("c").panel(p);
    for i in 0..39 {
        let q = Panel::accept(if i < 20 { a } else { 7 }).handler(Rec::new(10 + (i >= 20) as u8, &l).ret(3));
        c.add_panel(q);
    }
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    for i in 0..12 {
        let d = Cockpit::without_name().handler(Rec::new(12, &l).ret(4));
        if late {
            tx.add_cockpit(d);
        } else if i < 6 {
            rx.add_cockpit(d);
        } else {
            rx = rx.cockpit(d);
        }
    }
    rx.add_cockpit(c);
    tx.transmit(Observation::observed_one_value_now(x, 5));
    let out = rx.process(100, ProcessingStrategy::ProcessAll);
    check!(out.processed == 1 + 12 * late as usize);
    let got = take(&l);
    let (na, n7) = ((x == a) as usize, (x == 7) as usize);
    check!(count(&got, 1) == 70);
    check!(count(&got, 2) == 5 * na);
    check!(count(&got, 3) == 5 * na);
    check!(count(&got, 4) == 5);
    check!(count(&got, 5) == 5);
    check!(count(&got, 10) == 20 * na);
    check!(count(&got, 11) == 19 * n7);
    check!(count(&got, 12) == 12);
    check!(out.instruments_updated == 140 + 10 * na + 10 + 12 + 60 * na + 57 * n7 + 48);
    let s = snap(&rx);
    let c = sub(&s, "c").unwrap();
    for i in 0..3u8 {
        check!(uint(c, &format!("c{}", i)) == Some(1));
        check!(int(c, &format!("g{}", i)) == Some(5));
        check!(uint(sub(c, &format!("m{}", i)).unwrap(), "count") == Some(1));
        check!(uint(sub(c, &format!("h{}", i)).unwrap(), "count") == Some(1));
    }
    cover!(na == 1 && n7 == 0 && late);
    cover!(na == 0 && n7 == 1 && !late);
});
