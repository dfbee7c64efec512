//! C22: whatever way something is configured, it is as configured.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::polled::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::Duration;

/// text of one arbitrary letter
fn letter() -> String {
    any_name().1
}
fn is_text(s: &Snapshot, at: &str, want: &str) -> bool {
    entries(s, at) == 1 && matches!(item(s, at), Some(ItemKind::Text(t)) if t == want)
}
fn value(v: u64, now: T) -> Update {
    now.go();
    Update::ObservationWithValue(v.into(), now.instant())
}
/// as long as one likes, and a bit more or less
fn around(d: Duration) -> T {
    // (whole seconds only: what is exactly at a limit does not matter here)
    [T::new(5000, 0), T::new(5000 + d.as_secs() - 1, 0), T::new(5000 + d.as_secs() + 1, 0)][pick(3)]
}
fn seconds() -> Duration {
    [Duration::from_secs(10), Duration::from_secs(100)][pick(2)]
}

macro_rules! described {
    ($new:expr, $defaults:expr) => {{
        let (n, t, d) = (letter(), letter(), letter());
        let a = ($new)("x").name(n.clone()).title(t.clone()).description(d.clone());
        let mut b = ($defaults)("y");
        b.set_name(n.clone());
        b.set_title(t.clone());
        b.set_description(d.clone());
        check!(a.get_name() == n);
        check!(b.get_name() == n);
        check!(Descriptive::title(&a) == Some(&t[..]));
        check!(Descriptive::title(&b) == Some(&t[..]));
        check!(Descriptive::description(&a) == Some(&d[..]));
        check!(Descriptive::description(&b) == Some(&d[..]));
        let (s, plain) = (snap_d(&a), snap(&a));
        check!(is_text(&s, &format!("_title_{}", n), &t));
        check!(is_text(&s, &format!("_description_{}", n), &d));
        check!(s == snap_d(&b));
        check!(plain == snap(&b));
        check!(s.items.len() == plain.items.len() + 2);
        let c = ($new)("x");
        check!(c.get_name() == "x");
        check!(Descriptive::title(&c).is_none());
        check!(Descriptive::description(&c).is_none());
        check!(snap_d(&c) == snap(&c));
        (a, b)
    }};
}
macro_rules! alike {
    ($a:expr, $b:expr, $v:expr, $then:expr) => {{
        let (mut a, mut b) = ($a, $b);
        let now = T::new(5000, 0);
        check!(a.update(&value($v, now)) == 1);
        check!(b.update(&value($v, now)) == 1);
        let then: T = $then;
        then.go();
        let s = snap(&a);
        check!(s == snap(&b));
        s
    }};
}

// Name, title and description of an instrument, by builder and by setter.
//@ bounds=11_kinds_of_instruments,_texts_of_any_letter
harness!(c22_described, {
    T::new(5000, 0).go();
    let k = pick(11);
    match k {
        0 => drop(described!(Counter::new, Counter::new_with_defaults)),
        1 => drop(described!(Gauge::new, Gauge::new_with_defaults)),
        2 => drop(described!(Meter::new, Meter::new_with_defaults)),
        3 => drop(described!(Histogram::new, Histogram::new_with_defaults)),
        4 => drop(described!(ValueMeter::new, ValueMeter::new_with_defaults)),
        5 => drop(described!(Flag::new, Flag::new)),
        6 => drop(described!(StaircaseTimer::new, StaircaseTimer::new_with_defaults)),
        7 => drop(described!(OccurrenceIndicator::new, OccurrenceIndicator::new_with_defaults)),
        8 => drop(described!(NonOccurrenceIndicator::new, NonOccurrenceIndicator::new_with_defaults)),
        9 => drop(described!(DataDisplay::new, DataDisplay::new_with_defaults)),
        _ => drop(described!(LastOccurrenceTracker::new, LastOccurrenceTracker::new_with_defaults)),
    }
    cover!(k == 10);
});

fn alternate(w: usize, n: &str) -> NameAlternation {
    match w {
        0 => NameAlternation::Prefix(n.to_string()),
        1 => NameAlternation::Postfix(n.to_string()),
        _ => NameAlternation::Rename(n.to_string()),
    }
}
macro_rules! inverted {
    ($new:expr, $w:expr) => {{
        let n = letter();
        let w = $w;
        let a = ($new)("s").show_inverted(alternate(w, &n));
        let mut b = ($new)("s");
        b.set_show_inverted(alternate(w, &n));
        let c = match w {
            0 => ($new)("s").show_inverted_prefixed(n.clone()),
            1 => ($new)("s").show_inverted_postfixed(n.clone()),
            _ => ($new)("s").show_inverted_renamed(n.clone()),
        };
        let mut d = ($new)("s");
        match w {
            0 => d.set_show_inverted_prefixed(n.clone()),
            1 => d.set_show_inverted_postfixed(n.clone()),
            _ => d.set_show_inverted_renamed(n.clone()),
        }
        let want = match w {
            0 => format!("{}s", n),
            1 => format!("s{}", n),
            _ => n.clone(),
        };
        let s = snap(&a);
        check!(s.items.len() == 2);
        check!(s.items[0].0 == "s");
        check!(s.items[1].0 == want);
        check!(s == snap(&b));
        check!(s == snap(&c));
        check!(s == snap(&d));
        check!(snap(&($new)("s")).items.len() == 1);
    }};
}
// The name of the inverted value, all ways to say it.
//@ bounds=4_kinds_of_switches,_any_letter
harness!(c22_inverted_name, {
    T::new(5000, 0).go();
    let w = pick(3);
    let k = pick(4);
    match k {
        0 => inverted!(StaircaseTimer::new, w),
        1 => inverted!(OccurrenceIndicator::new, w),
        2 => inverted!(NonOccurrenceIndicator::new, w),
        _ => inverted!(|n| Flag::new_with_state(n, true), w),
    }
    cover!(k == 3 && w == 2);
});

// Switches: durations and inversion.
//@ bounds=durations_of_10_or_100_s,_before,_between_and_after
harness!(c22_switches, {
    let d = seconds();
    let inv = coin();
    T::new(5000, 0).go();
    let k = pick(4);
    match k {
        0 => {
            let mut a = StaircaseTimer::new("s").switch_off_after(d);
            let mut b = StaircaseTimer::new_with_defaults("s");
            b.set_switch_off_after(d);
            if inv {
                a.set_invert(true);
                b.enable_invert();
            }
            check!(a.get_switch_off_after() == d);
            check!(a.invert() == inv);
            check!(b.invert() == inv);
            alike!(a, b, 1, around(d));
        }
        1 => {
            let mut a = OccurrenceIndicator::new("s").if_happened_within(d);
            let mut b = OccurrenceIndicator::new_with_defaults("s");
            b.set_if_happened_within(d);
            a = a.invert_enabled(inv);
            b.set_invert_enabled(inv);
            check!(a.get_if_happened_within() == d);
            check!(a.is_inverted() == inv);
            if inv {
                check!(OccurrenceIndicator::new("s").inverted().is_inverted());
            }
            alike!(a, b, 1, around(d));
        }
        2 => {
            let mut a = NonOccurrenceIndicator::new("s").if_not_happened_within(d);
            let mut b = NonOccurrenceIndicator::new_with_defaults("s");
            b.set_if_not_happened_within(d);
            a = a.invert_enabled(inv);
            b.set_invert_enabled(inv);
            check!(a.get_if_not_happened_within() == d);
            check!(a.is_inverted() == inv);
            if inv {
                check!(NonOccurrenceIndicator::new("s").inverted().is_inverted());
            }
            alike!(a, b, 1, around(d));
        }
        _ => {
            let a = Flag::new("s").state(inv);
            let b = Flag::new_with_state("s", inv);
            check!(a.get_state() == Some(inv));
            check!(b.get_state() == Some(inv));
            check!(snap(&a) == snap(&b));
            check!(Flag::new("s").get_state().is_none());
        }
    }
    cover!(k == 2 && inv);
});

// Meters: rates and cutoff.
//@ bounds=all_combinations_of_rates,_cutoff_0.5_or_100_per_s,_meter_and_value_meter
harness!(c22_meters, {
    let (r1, r5, r15) = (coin(), coin(), coin());
    let cut = [0.5, 100.0][pick(2)];
    T::new(5000, 0).go();
    let value = coin();
    let s = if value {
        let a = ValueMeter::new("m")
            .one_minute_rate_enabled(r1)
            .five_minute_rate_enabled(r5)
            .fifteen_minute_rate_enabled(r15)
            .lower_cutoff(cut);
        let mut b = ValueMeter::new_with_defaults("m");
        b.set_one_minute_rate_enabled(r1);
        b.set_five_minute_rate_enabled(r5);
        b.set_fifteen_minute_rate_enabled(r15);
        b.set_lower_cutoff(cut);
        alike!(a, b, 10, T::new(5006, 0))
    } else {
        let a = Meter::new("m")
            .one_minute_rate_enabled(r1)
            .five_minute_rate_enabled(r5)
            .fifteen_minute_rate_enabled(r15)
            .lower_cutoff(cut);
        let mut b = Meter::new_with_defaults("m");
        b.set_one_minute_rate_enabled(r1);
        b.set_five_minute_rate_enabled(r5);
        b.set_fifteen_minute_rate_enabled(r15);
        b.set_lower_cutoff(cut);
        alike!(a, b, 10, T::new(5006, 0))
    };
    let m = sub(&s, "m");
    check!(m.is_some());
    let m = m.unwrap();
    for (n, on) in [("one_minute", r1), ("five_minutes", r5), ("fifteen_minutes", r15)] {
        check!(sub(m, n).is_some() == on);
        if on {
            let r = float(sub(m, n).unwrap(), "rate");
            check!(r.is_some());
            if cut > 10.0 || !value {
                check!(r == Some(0.0));
            } else {
                check!(r > Some(0.0));
            }
        }
    }
    cover!(r1 && !r5 && r15 && value);
});

// The other instruments: time units, grouping, tracking, resetting.
//@ bounds=4_time_units,_durations_of_10_or_100_s,_any_values_and_flags
harness!(c22_others, {
    let d = seconds();
    T::new(5000, 0).go();
    let unit = any_unit();
    let (f, g) = (coin(), coin());
    let k = pick(6);
    match k {
        0 => {
            let v = i64v();
            let mut a = Gauge::new("g").display_time_unit(unit).tracking(10).value(v).group_values(f);
            let mut b = Gauge::new_with_defaults("g").group_values(f);
            b.set_display_time_unit(unit);
            b.set_tracking(10);
            check!(a.get() == Some(v));
            check!(b.get().is_none());
            b.set(v.into());
            check!(b.get() == Some(v));
            let u = Update::ObservationWithValue((7_000_000_000u64, TimeUnit::Nanoseconds).into(), T::new(5000, 0).instant());
            a.update(&u);
            b.update(&u);
            check!(a.get() == Some((7_000_000_000u64 / nanos_per(unit)) as i64));
            check!(a.get() == b.get());
        }
        1 => {
            let a = Histogram::new("h")
                .display_time_unit(unit)
                .inactivity_limit(d)
                .reset_after_inactivity(f)
                .show_activity_state(g);
            let mut b = Histogram::new_with_defaults("h");
            b.set_display_time_unit(unit);
            b.set_inactivity_limit(d);
            b.set_reset_after_inactivity(f);
            b.set_show_activity_state(g);
            alike!(a, b, 5, around(d));
        }
        2 => {
            let a = ValueMeter::new("m").display_time_unit(unit);
            let mut b = ValueMeter::new_with_defaults("m");
            b.set_display_time_unit(unit);
            let (mut a, mut b) = (a, b);
            let u = Update::ObservationWithValue((7_000_000_000u64, TimeUnit::Nanoseconds).into(), T::new(5000, 0).instant());
            a.update(&u);
            b.update(&u);
            check!(snap(&a) == snap(&b));
            check!(uint(sub(&snap(&a), "m").unwrap(), "count") == Some(7_000_000_000u64 / nanos_per(unit)));
        }
        3 => {
            let v = u64v();
            let mut a = DataDisplay::new("d");
            let mut b = DataDisplay::new_with_defaults("d");
            if f {
                a = a.reset_after(d);
                b.set_reset_after(d);
            }
            if g {
                a = a.reset_value(v);
                b.set_reset_value(v);
            }
            check!(a.get_reset_after() == if f { Some(d) } else { None });
            check!(b.get_reset_after() == a.get_reset_after());
            let want = ItemKind::UInt(v);
            check!(a.get_reset_value() == if g { Some(&want) } else { None });
            check!(b.get_reset_value() == a.get_reset_value());
            check!(snap(&a) == snap(&b));
            alike!(a, b, 7, around(d));
        }
        4 => {
            let a = LastOccurrenceTracker::new("l").make_none_zero(f).invert_enabled(g);
            let mut b = LastOccurrenceTracker::new_with_defaults("l");
            b.set_make_none_zero(f);
            b.set_invert_enabled(g);
            check!(a.get_make_none_zero() == f);
            check!(b.get_make_none_zero() == f);
            check!(a.is_inverted() == g);
            check!(b.is_inverted() == g);
            check!(LastOccurrenceTracker::new("l").inverted().is_inverted());
            check!(snap(&a) == snap(&b));
            alike!(a, b, 7, around(d));
        }
        _ => {
            let (n, t, x) = (letter(), letter(), letter());
            let mut p = PollingInstrument::new_with_defaults("p", Put("v", 1));
            check!(p.get_name() == "p");
            check!(!p.create_group_with_name());
            p.set_title(t.clone());
            p.set_description(x.clone());
            p.set_name(n.clone());
            p.set_create_group_with_name(f);
            check!(p.get_name() == n);
            check!(p.create_group_with_name() == f);
            check!(Descriptive::title(&p) == Some(&t[..]));
            check!(Descriptive::description(&p) == Some(&x[..]));
            let s = snap_d(&p);
            check!(is_text(&s, &format!("_title_{}", n), &t));
            check!(is_text(&s, &format!("_description_{}", n), &x));
            let mut c = ConstantValue::new("c", 1u8);
            check!(c.get_name() == "c");
            c.set_title(t.clone());
            c.set_description(x.clone());
            c.set_name(n.clone());
            check!(c.get_name() == n);
            check!(Descriptive::title(&c) == Some(&t[..]));
            check!(Descriptive::description(&c) == Some(&x[..]));
            let s = snap_d(&c);
            check!(is_text(&s, &format!("_title_{}", n), &t));
            check!(is_text(&s, &format!("_description_{}", n), &x));
        }
    }
    cover!(k == 5 && f);
    cover!(k == 3 && f && g);
});

// Panels, cockpits, processors and mounts: builders and setters.
//@ bounds=texts_of_any_letter,_inactivity_limit_of_10_or_100_s,_looked_at_before_and_after_it
harness!(c22_containers, {
    let d = seconds();
    T::new(5000, 0).go();
    let (n, t, x) = (letter(), letter(), letter());
    let show = coin();
    let l = log();
    let k = pick(4);
    let then = around(d);
    let one = || Observation::observed_one_value(1u8, 1u64, T::new(5000, 0).instant());
    match k {
        0 => {
            let sub_panel = || Panel::accept_all_named("sub").snapshooter(Put("in", 2));
            let mut a = match pick(3) {
                0 => Panel::named(AcceptAllLabels, n.clone()),
                1 => Panel::accept_named(AcceptAllLabels, n.clone()),
                _ => Panel::accept_all_named(n.clone()),
            }
            .counter(Counter::new("counter"))
            .gauge(Gauge::new("gauge"))
            .meter(Meter::new("meter"))
            .histogram(Histogram::new("histogram"))
            .instrument(Flag::new("flag"))
            .panel(sub_panel())
            .handler(Rec::new(1, &l).named("handler"))
            .snapshooter(Put("put", 1))
            .inactivity_limit(d)
            .show_activity_state(show);
            a.set_title(t.clone());
            a.set_description(x.clone());
            let mut b = if coin() { Panel::accept_all() } else { Panel::accept(AcceptAllLabels) };
            check!(b.name().is_none());
            b.set_name(n.clone());
            b.set_title(t.clone());
            b.set_description(x.clone());
            b.add_counter(Counter::new("counter"));
            b.add_gauge(Gauge::new("gauge"));
            b.add_meter(Meter::new("meter"));
            b.add_histogram(Histogram::new("histogram"));
            b.add_instrument(Flag::new("flag"));
            b.add_panel(sub_panel());
            b.add_handler(Rec::new(1, &l).named("handler"));
            b.add_snapshooter(Put("put", 1));
            b.set_inactivity_limit(d);
            b.set_show_activity_state(show);
            check!(a.name() == Some(&n[..]));
            check!(b.name() == Some(&n[..]));
            // 5 instruments and the handler
            check!(a.handle_observation(&one()) == 6);
            check!(b.handle_observation(&one()) == 6);
            check!(take(&l).len() == 2);
            then.go();
            let s = snap_d(&a);
            check!(s == snap_d(&b));
            let s = sub(&s, &n);
            check!(s.is_some());
            let s = s.unwrap();
            check!(is_text(s, "_title", &t));
            check!(is_text(s, "_description", &x));
            let active = then.since(T::new(5000, 0)).0 < d.as_secs();
            check!(s.items.len() == 2 + 2 * show as usize + if active { 8 } else { 0 });
        }
        1 => {
            let panel = || Panel::accept_all_named("panel").snapshooter(Put("in", 2));
            let mut a = Cockpit::new(n.clone())
                .panel(panel())
                .handler(Rec::new(1, &l).named("handler"))
                .snapshooter(Put("put", 1))
                .show_activity_state(show);
            a.set_title(t.clone());
            a.set_description(x.clone());
            a.set_inactivity_limit(d);
            let mut b = Cockpit::without_name();
            check!(b.get_name().is_none());
            b.set_name(n.clone());
            b.set_title(t.clone());
            b.set_description(x.clone());
            b.add_panel(panel());
            b.add_handler(Rec::new(1, &l).named("handler"));
            b.add_snapshooter(Put("put", 1));
            b.set_inactivity_limit(d);
            b.set_show_activity_state(show);
            check!(a.get_name() == Some(&n[..]));
            check!(b.get_name() == Some(&n[..]));
            check!(a.get_panels().len() == 1);
            check!(a.get_panels_mut().len() == 1);
            check!(a.get_handlers().len() == 1);
            check!(a.get_snapshooters().len() == 1);
            check!(a.handle_observation(&one()) == 1);
            check!(b.handle_observation(&one()) == 1);
            check!(take(&l).len() == 2);
            then.go();
            let s = snap_d(&a);
            check!(s == snap_d(&b));
            let s = sub(&s, &n);
            check!(s.is_some());
            let s = s.unwrap();
            check!(is_text(s, "_title", &t));
            check!(is_text(s, "_description", &x));
            let active = then.since(T::new(5000, 0)).0 < d.as_secs();
            check!(s.items.len() == 2 + 2 * show as usize + if active { 3 } else { 0 });
        }
        2 => {
            let cockpit = || Cockpit::new("cockpit").snapshooter(Put("in", 2));
            let (ta, a) = TelemetryProcessor::<u8>::new_pair(n.clone());
            let mut a = a
                .cockpit(cockpit())
                .handler(Rec::new(1, &l).named("handler"))
                .snapshooter(Put("put", 1))
                .inactivity_limit(d)
                .show_activity_state(show);
            let (tb, mut b) = TelemetryProcessor::<u8>::new_pair_without_name();
            check!(b.get_name().is_none());
            b.set_name(n.clone());
            b.add_cockpit(cockpit());
            b.add_handler(Rec::new(1, &l).named("handler"));
            b.add_snapshooter(Put("put", 1));
            b.set_inactivity_limit(d);
            b.set_show_activity_state(show);
            check!(a.get_name() == Some(&n[..]));
            check!(b.get_name() == Some(&n[..]));
            check!(a.get_cockpits().len() == 1);
            check!(a.get_handlers().len() == 1);
            check!(a.get_snapshooters().len() == 1);
            ta.transmit(one());
            tb.transmit(one());
            check!(a.process(1, ProcessingStrategy::ProcessAll).instruments_updated == 1);
            check!(b.process(1, ProcessingStrategy::ProcessAll).instruments_updated == 1);
            then.go();
            let s = snap_d(&a);
            check!(s == snap_d(&b));
            let s = sub(&s, &n);
            check!(s.is_some());
            let active = then.since(T::new(5000, 0)).0 < d.as_secs();
            check!(s.unwrap().items.len() == 2 * show as usize + if active { 3 } else { 0 });
        }
        _ => {
            let mut a = ProcessorMount::new(n.clone());
            let mut b = ProcessorMount::default();
            check!(b.name().is_none());
            b.set_name(n.clone());
            check!(a.name() == Some(&n[..]));
            check!(b.name() == Some(&n[..]));
            let p = || TelemetryProcessor::<u8>::new_pair("p").1;
            a.add_processor(p());
            b.add_processor_dyn(Box::new(p()));
            a.add_snapshooter(Put("put", 1));
            b.add_snapshooter_dyn(Box::new(Put("put", 1)));
            a.set_inactivity_limit(d);
            b.set_inactivity_limit(d);
            check!(a.processors().len() == 1);
            check!(b.processors().len() == 1);
            check!(a.snapshooters().len() == 1);
            check!(b.snapshooters().len() == 1);
            then.go();
            let s = snap_d(&a);
            check!(s == snap_d(&b));
            let s = sub(&s, &n);
            check!(s.is_some());
            let active = then.since(T::new(5000, 0)).0 < d.as_secs();
            check!(s.unwrap().items.len() == 2 + if active { 2 } else { 0 });
        }
    }
    cover!(k == 0 && show);
    cover!(k == 3);
});

// However something is told which labels to accept, exactly these reach it.
//@ bounds=11_kinds_of_instruments,_8_ways,_byte_labels cost=2
harness!(c22_labels, {
    T::new(5000, 0).go();
    let (a, b, x) = (u8v(), u8v(), u8v());
    let way = pick(8);
    macro_rules! adapt {
        ($i:expr) => {{
            let i = $i;
            match way {
                0 => i.accept(a),
                1 => i.accept((a, b)),
                2 => i.for_label(a),
                3 => i.for_labels(vec![a, b]),
                4 => i.for_all_labels(),
                5 => i.for_labels_by_predicate(move |l: &u8| *l >= a && *l <= b),
                6 => i.adapter(),
                _ => i.into(),
            }
        }};
    }
    let accepts = match way {
        0 | 2 => x == a,
        1 | 3 => (x == a) | (x == b),
        4 | 7 => true,
        5 => (a <= x) & (x <= b),
        _ => false,
    };
    let mut p = Panel::<u8>::accept_all();
    let k = pick(11);
    macro_rules! other {
        ($i:expr) => {{
            let ad: InstrumentAdapter<u8, _> = adapt!($i);
            p.add_handler(ad)
        }};
    }
    match k {
        0 => {
            let ad: InstrumentAdapter<u8, Counter> = adapt!(Counter::new("i"));
            check!(ad.instrument().get_name() == "i");
            p.add_counter(ad)
        }
        1 => {
            let ad: GaugeAdapter<u8> = adapt!(Gauge::new("i"));
            check!(ad.gauge().get_name() == "i");
            p.add_gauge(ad)
        }
        2 => {
            let ad: InstrumentAdapter<u8, Meter> = adapt!(Meter::new("i"));
            p.add_meter(ad)
        }
        3 => {
            let ad: InstrumentAdapter<u8, Histogram> = adapt!(Histogram::new("i"));
            p.add_histogram(ad)
        }
        4 => other!(ValueMeter::new("i")),
        5 => other!(Flag::new("i")),
        6 => other!(StaircaseTimer::new("i")),
        7 => other!(OccurrenceIndicator::new("i")),
        8 => other!(NonOccurrenceIndicator::new("i")),
        9 => other!(DataDisplay::new("i")),
        _ => other!(LastOccurrenceTracker::new("i")),
    }
    let o = Observation::observed_one_value(x, 1u64, T::new(5000, 0).instant());
    check!((p.handle_observation(&o) == 1) == accepts);
    check!((p.handle_observation(&o) == 0) == !accepts);
    cover!(accepts && k == 10 && way == 5);
    cover!(!accepts && k == 4 && way == 6);
});

// A driver is built as its builder says.
//@ bounds=all_8_combinations_of_name,_title_and_description,_with_and_without_metrics
harness!(c22_driver, {
    T::new(5000, 0).go();
    let named = pick(3);
    let (title, text, metrics) = (coin(), coin(), coin());
    let mut b = match named {
        0 => DriverBuilder::default(),
        1 => DriverBuilder::new("d"),
        _ => DriverBuilder::default().set_name("d"),
    };
    if title {
        b = b.set_title("the title");
    }
    if text {
        b = b.set_description("the text");
    }
    check!(b.with_driver_metrics);
    b = b.set_driver_metrics(metrics).set_processing_strategy(ProcessingStrategy::DropAll);
    check!(b.with_driver_metrics == metrics);
    check!(b.processing_strategy == ProcessingStrategy::DropAll);
    check!(b.name.as_deref() == if named > 0 { Some("d") } else { None });
    check!(b.title.as_deref() == if title { Some("the title") } else { None });
    check!(b.description.as_deref() == if text { Some("the text") } else { None });
    cover!(title && !text && metrics && named == 2);
});

// However a gauge is told what to accept, exactly that reaches it.
//@ bounds=3_kinds_of_selection,_all_ways_to_say_it,_byte_labels,_any_deltas_and_integers
harness!(c22_gauges, {
    T::new(5000, 0).go();
    let (a, b, x) = (u8v(), u8v(), u8v());
    let within = move |l: &u8| *l >= a && *l <= b;
    let start = u32v() as i32 as i64;
    let g = || Gauge::new("g").value(start);
    let way = pick(19);
    let mut ad: GaugeAdapter<u8> = match way {
        // everything
        0 => g().for_all_labels(),
        1 => GaugeAdapter::new(g()),
        2 => g().into(),
        // what has the label
        3 => GaugeAdapter::for_label(a, g()),
        4 => GaugeAdapter::for_labels(vec![a, b], g()),
        5 => GaugeAdapter::for_labels_by_predicate(within, g()),
        6 => GaugeAdapter::accept((a, b), g()),
        // deltas
        7 => GaugeAdapter::for_label_deltas_only(a, g()),
        8 => g().for_label_deltas_only(a),
        9 => GaugeAdapter::for_labels_deltas_only(vec![a, b], g()),
        10 => g().for_labels_deltas_only(vec![a, b]),
        11 => GaugeAdapter::for_labels_deltas_only_by_predicate(within, g()),
        12 => g().for_labels_deltas_only_by_predicate(within),
        // up and down
        13 => GaugeAdapter::inc_dec_on_many(vec![a], vec![b], g()),
        14 => g().inc_dec_on_many(vec![a], vec![b]),
        15 => GaugeAdapter::inc_dec_by_predicates(move |l: &u8| *l == a, move |l: &u8| *l == b, g()),
        16 => g().inc_dec_by_predicates(move |l: &u8| *l == a, move |l: &u8| *l == b),
        17 => g().inc_dec_on(a, b),
        // nothing
        _ => GaugeAdapter::deaf(g()),
    };
    let accepts = match way {
        0 | 1 | 2 => true,
        3 | 7 | 8 => x == a,
        5 | 11 | 12 => (a <= x) & (x <= b),
        18 => false,
        _ => (x == a) | (x == b),
    };
    let v = u32v() as i32 as i64;
    let delta = coin();
    let at = T::new(5000, 0).instant();
    let o = if delta {
        Observation::observed_one_value(x, ChangeBy(v), at)
    } else {
        Observation::observed_one_value(x, v, at)
    };
    let got = ad.handle_observation(&o);
    let reached = accepts & (way < 7 || way > 12 || delta);
    check!(got == reached as usize);
    let want = if !reached {
        start
    } else if way > 12 {
        if x == a {
            start + 1
        } else {
            start - 1
        }
    } else if delta {
        start + v
    } else {
        v
    };
    check!(ad.gauge().get() == Some(want));
    check!(ad.gauge_mut().get() == Some(want));
    let s = snap(&ad);
    check!(int(&s, "g") == Some(want));
    check!(ad.into_inner().get() == Some(want));
    cover!(reached && way == 12 && delta);
    cover!(reached && way == 13 && x == b && a != b);
    cover!(!reached && accepts);
});

/// both set, the second time as wanted; then the same as set once
macro_rules! again {
    ($a:expr, $b:expr, $v:expr, $then:expr, $late:expr) => {
        again!($a, $b, $v, $then, $late, false)
    };
    ($a:expr, $b:expr, $v:expr, $then:expr, $late:expr, $new:expr) => {{
        let (mut a, mut b, late) = ($a, $b, $late);
        // said over again before or after the first observation
        let first = value($v, T::new(5000, 0));
        let finish = |x: &mut _, said: bool| if said { late(x) };
        let when = coin();
        finish(&mut a, when);
        finish(&mut b, true);
        check!(a.update(&first) == 1);
        check!(b.update(&first) == 1);
        finish(&mut a, !when);
        if $new || coin() {
            // (for what is only used with the next observation)
            let second = value($v, T::new(5000, 0));
            check!(a.update(&second) == 1);
            check!(b.update(&second) == 1);
        }
        let then: T = $then;
        then.go();
        let s = snap_d(&a);
        check!(s == snap_d(&b));
        s
    }};
}
macro_rules! texts {
    ($new:expr, $v:expr, $set:expr) => {{
        let (n, t, d) = (letter(), letter(), letter());
        let mut a = ($new)("q").title("q1").description("q2");
        let b = ($new)("x");
        if coin() {
            a.set_name("r");
            a.set_title("");
            a.set_description("r2");
        }
        let (n2, t2, d2) = (n.clone(), t.clone(), d.clone());
        let set = $set;
        let s = again!(a, b, $v, T::new(5001, 0), move |x: &mut _| {
            set(x, n2.clone(), t2.clone(), d2.clone())
        });
        check!(is_text(&s, &format!("_title_{}", n), &t));
        check!(is_text(&s, &format!("_description_{}", n), &d));
    }};
}
macro_rules! setter {
    ($t:ty) => {
        |x: &mut $t, n: String, t: String, d: String| {
            x.set_name(n);
            x.set_title(t);
            x.set_description(d);
        }
    };
}
// What is said more than once about name, title and description counts as said last, whether or not
// something has been observed in between.
//@ bounds=11_kinds_of_instruments,_said_2_or_3_times,_texts_of_any_letter
harness!(c22_texts_again, {
    T::new(5000, 0).go();
    let k = pick(11);
    match k {
        0 => texts!(Counter::new, 1, setter!(Counter)),
        1 => texts!(Gauge::new, 1, setter!(Gauge)),
        2 => texts!(Meter::new, 1, setter!(Meter)),
        3 => texts!(Histogram::new, 1, setter!(Histogram)),
        4 => texts!(ValueMeter::new, 1, setter!(ValueMeter)),
        5 => texts!(Flag::new, 1, setter!(Flag)),
        6 => texts!(StaircaseTimer::new, 1, setter!(StaircaseTimer)),
        7 => texts!(OccurrenceIndicator::new, 1, setter!(OccurrenceIndicator)),
        8 => texts!(NonOccurrenceIndicator::new, 1, setter!(NonOccurrenceIndicator)),
        9 => texts!(DataDisplay::new, 1, setter!(DataDisplay)),
        _ => texts!(LastOccurrenceTracker::new, 1, setter!(LastOccurrenceTracker)),
    }
    cover!(k == 10);
});

// The same for everything else that can be set.
//@ bounds=13_kinds_of_settings,_said_twice,_the_second_time_before_or_after_an_observation,_any_flags,_durations_of_10_or_100_s
harness!(c22_again, {
    T::new(5000, 0).go();
    let (d, other) = (Duration::from_secs(10), Duration::from_secs(100));
    let (d, other) = if coin() { (d, other) } else { (other, d) };
    let (f, g) = (coin(), coin());
    let k = pick(13);
    match k {
        0 => {
            let l = move |x: &mut StaircaseTimer| {
                x.set_switch_off_after(d);
                x.set_show_inverted_postfixed("_not");
            };
            let mut a = StaircaseTimer::new("s").switch_off_after(other).show_inverted_renamed("z");
            a.set_invert(f);
            let mut b = StaircaseTimer::new("s");
            b.set_invert(f);
            let s = again!(a, b, 1, around(d), l, true);
            check!(s.items.len() == 2);
        }
        1 => {
            let l = move |x: &mut NonOccurrenceIndicator| {
                x.set_if_not_happened_within(d);
                x.set_invert_enabled(f);
                x.set_show_inverted_prefixed("not_");
            };
            let a = NonOccurrenceIndicator::new("s")
                .if_not_happened_within(other)
                .invert_enabled(g)
                .show_inverted_renamed("z");
            let s = again!(a, NonOccurrenceIndicator::new("s"), 1, around(d), l);
            check!(s.items.len() == 2);
        }
        2 => {
            let l = move |x: &mut OccurrenceIndicator| {
                x.set_invert_enabled(f);
                x.set_show_inverted_prefixed("not_");
            };
            let a = OccurrenceIndicator::new("s")
                .if_happened_within(other)
                .if_happened_within(d)
                .invert_enabled(g)
                .show_inverted_renamed("z");
            let s = again!(a, OccurrenceIndicator::new("s").if_happened_within(d), 1, around(d), l);
            check!(s.items.len() == 2);
        }
        3 => {
            let l = move |x: &mut Flag| {
                x.set_show_inverted_renamed("z");
            };
            let a = Flag::new_with_state("s", f).show_inverted_prefixed("q");
            let s = again!(a, Flag::new_with_state("s", g), f as u64, T::new(5000, 0), l);
            check!(boolean(&s, "s") == Some(f));
            check!(boolean(&s, "z") == Some(!f));
            check!(s.items.len() == 2);
        }
        4 => {
            let (r1, r5, r15) = (coin(), coin(), coin());
            let l = move |x: &mut Meter| {
                x.set_one_minute_rate_enabled(r1);
                x.set_five_minute_rate_enabled(r5);
                x.set_fifteen_minute_rate_enabled(r15);
                x.set_lower_cutoff(0.0001);
            };
            let a = Meter::new("m")
                .one_minute_rate_enabled(f)
                .five_minute_rate_enabled(g)
                .fifteen_minute_rate_enabled(f)
                .lower_cutoff(1000.0);
            let s = again!(a, Meter::new("m"), 10, T::new(5006, 0), l);
            check!(sub(&s, "m").is_some_and(|m| sub(m, "five_minutes").is_some() == r5));
        }
        5 => {
            let (r1, r5, r15) = (coin(), coin(), coin());
            let l = move |x: &mut ValueMeter| {
                x.set_one_minute_rate_enabled(r1);
                x.set_five_minute_rate_enabled(r5);
                x.set_fifteen_minute_rate_enabled(r15);
                x.set_lower_cutoff(0.0001);
            };
            let a = ValueMeter::new("m")
                .one_minute_rate_enabled(f)
                .five_minute_rate_enabled(g)
                .fifteen_minute_rate_enabled(f)
                .lower_cutoff(1000.0);
            let s = again!(a, ValueMeter::new("m"), 10, T::new(5006, 0), l);
            check!(sub(&s, "m").is_some_and(|m| sub(m, "fifteen_minutes").is_some() == r15));
        }
        6 => {
            let l = move |x: &mut Histogram| {
                x.set_inactivity_limit(d);
                x.set_reset_after_inactivity(f);
                x.set_show_activity_state(g);
            };
            let a = Histogram::new("h")
                .inactivity_limit(other)
                .reset_after_inactivity(!f)
                .show_activity_state(!g);
            again!(a, Histogram::new("h"), 5, around(d), l);
        }
        7 => {
            let v = u64v();
            let l = move |x: &mut DataDisplay| {
                x.set_reset_after(d);
                x.set_reset_value(v);
            };
            let a = DataDisplay::new("d").reset_after(other).reset_value(if f { 1u64 } else { 2 });
            check!(a.get_reset_after() == Some(other));
            let mut b = DataDisplay::new("d").reset_after(other).reset_value(1u64);
            l(&mut b);
            check!(b.get_reset_after() == Some(d));
            check!(b.get_reset_value() == Some(&ItemKind::UInt(v)));
            again!(a, DataDisplay::new("d"), 7, around(d), l, true);
        }
        8 => {
            let l = move |x: &mut LastOccurrenceTracker| {
                x.set_make_none_zero(f);
                x.set_invert_enabled(g);
            };
            let a = LastOccurrenceTracker::new("l").make_none_zero(!f).invert_enabled(!g);
            let mut b = LastOccurrenceTracker::new("l").make_none_zero(!f);
            l(&mut b);
            check!(b.get_make_none_zero() == f);
            check!(snap(&b).items.len() == f as usize);
            again!(a, LastOccurrenceTracker::new("l"), 7, around(d), l);
        }
        9 => {
            // time units: the last one counts for what comes after
            let unit = any_unit();
            let u = Update::ObservationWithValue((7_000_000_000u64, TimeUnit::Nanoseconds).into(), T::new(5000, 0).instant());
            let want = 7_000_000_000u64 / nanos_per(unit);
            let mut a = Gauge::new("g").display_time_unit(any_unit());
            let mut h = Histogram::new("h").display_time_unit(any_unit());
            let mut m = ValueMeter::new("m").display_time_unit(any_unit());
            if f {
                a.update(&u);
            }
            a.set_display_time_unit(unit);
            h.set_display_time_unit(unit);
            m.set_display_time_unit(unit);
            a.update(&u);
            h.update(&u);
            m.update(&u);
            check!(a.get() == Some(want as i64));
            check!(sub(&snap(&h), "h").is_some_and(|h| int(h, "max") == Some(want as i64)));
            check!(sub(&snap(&m), "m").is_some_and(|m| uint(m, "count") == Some(want)));
        }
        10 => {
            // tracking: from the last time on it is tracked for as long as said last
            let (v, w, x) = (u32v() as i64, u32v() as i64, u32v() as i64);
            assume((w > x) & (w >= v));
            let mut a = Gauge::new("g").group_values(f).group_values(true).tracking(other.as_secs() as usize);
            a.update(&value(v as u64, T::new(5000, 0)));
            a.set_tracking(d.as_secs() as usize);
            a.update(&value(w as u64, T::new(5002, 0)));
            a.update(&value(x as u64, T::new(5003, 0)));
            T::new(5002 + d.as_secs() - 2, 0).go();
            let s = snap(&a);
            let s = sub(&s, "g").unwrap();
            check!(int(s, "peak") == Some(w));
            check!(int(s, "bottom") == Some(x) || int(s, "bottom") == Some(v));
            T::new(5002 + d.as_secs() + 2, 0).go();
            let s = snap(&a);
            let s = sub(&s, "g").unwrap();
            check!(int(s, "current") == Some(x));
            check!(int(s, "peak") == Some(x));
            check!(int(s, "bottom") == Some(x));
        }
        11 => {
            let mut p = PollingInstrument::new_with_defaults("q", Put("v", 1));
            p.set_name("r");
            p.set_title("q");
            p.set_description("q");
            p.set_create_group_with_name(!f);
            if g {
                snap_d(&p);
            }
            let (n, t, x) = (letter(), letter(), letter());
            p.set_name(n.clone());
            p.set_title(t.clone());
            p.set_description(x.clone());
            p.set_create_group_with_name(f);
            check!(p.get_name() == n);
            let s = snap_d(&p);
            check!(is_text(&s, &format!("_title_{}", n), &t));
            check!(is_text(&s, &format!("_description_{}", n), &x));
            check!(s.items.len() == 3);
            check!(uint(if f { sub(&s, &n).unwrap() } else { &s }, "v") == Some(1));
            let mut c = ConstantValue::new("c", 1u8);
            c.set_name("r");
            c.set_title("q");
            c.set_description("q");
            if g {
                snap_d(&c);
            }
            c.set_name(n.clone());
            c.set_title(t.clone());
            c.set_description(x.clone());
            let s = snap_d(&c);
            check!(is_text(&s, &format!("_title_{}", n), &t));
            check!(is_text(&s, &format!("_description_{}", n), &x));
            check!(s.items.len() == 3);
            check!(uint(&s, &n) == Some(1));
        }
        _ => {
            let (n, t, x) = (letter(), letter(), letter());
            let b = if f { DriverBuilder::new("q") } else { DriverBuilder::default().set_name("q") }
                .set_title("q")
                .set_description("q")
                .set_driver_metrics(!g)
                .set_processing_strategy(ProcessingStrategy::DropAll)
                .set_name(n.clone())
                .set_title(t.clone())
                .set_description(x.clone())
                .set_driver_metrics(g)
                .set_processing_strategy(ProcessingStrategy::ProcessAll);
            check!(b.name.as_deref() == Some(&n[..]));
            check!(b.title.as_deref() == Some(&t[..]));
            check!(b.description.as_deref() == Some(&x[..]));
            check!(b.with_driver_metrics == g);
            check!(b.processing_strategy == ProcessingStrategy::ProcessAll);
        }
    }
    cover!(k == 12 && f);
    cover!(k == 6 && f && !g);
    cover!(k == 10 && d < other);
});

// The same for panels, cockpits, processors and mounts.
//@ bounds=texts_of_any_letter,_any_flags,_inactivity_limits_of_10_and_100_s,_looked_at_before,_between_and_after_them,_said_again_before_or_after_an_observation
harness!(c22_containers_again, {
    T::new(5000, 0).go();
    let (d, other) = (Duration::from_secs(10), Duration::from_secs(100));
    let (d, other) = if coin() { (d, other) } else { (other, d) };
    let (n, t, x) = (letter(), letter(), letter());
    let (show, when) = (coin(), coin());
    let l = log();
    let one = || Observation::observed_one_value(1u8, 1u64, T::new(5000, 0).instant());
    let k = pick(4);
    let then = around(d);
    let (s, all) = match k {
        0 => {
            let mut a = Panel::accept_all_named("q").handler(Rec::new(1, &l).named("h")).inactivity_limit(other);
            a.set_title("q");
            a.set_description("q");
            a.set_show_activity_state(!show);
            if when {
                a.handle_observation(&one());
                snap_d(&a);
            }
            a.set_name(n.clone());
            a.set_title(t.clone());
            a.set_description(x.clone());
            a.set_inactivity_limit(d);
            a.set_show_activity_state(show);
            if !when {
                a.handle_observation(&one());
            }
            then.go();
            (snap_d(&a), 1)
        }
        1 => {
            let mut a = Cockpit::new("q").handler(Rec::new(1, &l).named("h")).show_activity_state(!show);
            a.set_title("q");
            a.set_description("q");
            a.set_inactivity_limit(other);
            if when {
                a.handle_observation(&one());
                snap_d(&a);
            }
            a.set_name(n.clone());
            a.set_title(t.clone());
            a.set_description(x.clone());
            a.set_inactivity_limit(d);
            a.set_show_activity_state(show);
            if !when {
                a.handle_observation(&one());
            }
            then.go();
            (snap_d(&a), 1)
        }
        2 => {
            let (tx, a) = TelemetryProcessor::<u8>::new_pair("q");
            let mut a = a.handler(Rec::new(1, &l).named("h")).show_activity_state(!show).inactivity_limit(other);
            tx.transmit(one());
            if when {
                a.process(10, ProcessingStrategy::ProcessAll);
                snap_d(&a);
            }
            a.set_name(n.clone());
            a.set_inactivity_limit(d);
            a.set_show_activity_state(show);
            if !when {
                a.process(10, ProcessingStrategy::ProcessAll);
            }
            then.go();
            (snap_d(&a), 1)
        }
        _ => {
            let mut a = ProcessorMount::new("q");
            a.set_inactivity_limit(other);
            let (tx, p) = TelemetryProcessor::<u8>::new_pair_without_name();
            a.add_processor(p.handler(Rec::new(1, &l).named("h")));
            tx.transmit(one());
            if when {
                a.process(10, ProcessingStrategy::ProcessAll);
                snap_d(&a);
            }
            a.set_name(n.clone());
            a.set_inactivity_limit(d);
            if !when {
                a.process(10, ProcessingStrategy::ProcessAll);
            }
            then.go();
            (snap_d(&a), 1)
        }
    };
    check!(s.items.len() == 1);
    let s = sub(&s, &n);
    check!(s.is_some());
    let s = s.unwrap();
    if k < 2 {
        check!(is_text(s, "_title", &t));
        check!(is_text(s, "_description", &x));
    }
    let active = then.since(T::new(5000, 0)).0 < d.as_secs();
    check!(entries(s, "h") == if active { all } else { 0 });
    let state = if k == 3 { 2 } else { 2 * show as usize };
    check!(s.items.len() == if k < 2 { 2 } else { 0 } + state + active as usize);
    cover!(k == 1 && when && show);
    cover!(k == 3 && !when && !active);
});

// An adapter hands on what it is told to hand on, as changed by its modifier, whatever is said in
// which order.
//@ bounds=3_sayings_of_3_kinds_(a_modifier,_all_labels,_no_labels)_in_any_order,_5_ways_to_begin,_any_label,_any_observation
harness!(c22_adapters, {
    T::new(5000, 0).go();
    let (a, b, x) = (u8v(), u8v(), u8v());
    let l = log();
    let way = pick(5);
    let i = || RecI::new(1, 1, &l);
    let mut ad: InstrumentAdapter<u8, RecI> = match way {
        0 => InstrumentAdapter::new(i()),
        1 => InstrumentAdapter::deaf(i()),
        2 => InstrumentAdapter::for_label(a, i()),
        3 => InstrumentAdapter::for_labels(vec![a, b], i()),
        _ => InstrumentAdapter::by_predicate(move |l: &u8| *l >= a && *l <= b, i()),
    };
    let mut accepts = match way {
        0 => true,
        1 => false,
        2 => x == a,
        3 => (x == a) | (x == b),
        _ => (a <= x) & (x <= b),
    };
    let mut modified = 0u64;
    for step in 1..4u64 {
        match pick(3) {
            0 => {
                modified = step;
                ad = ad.modify_with(move |l, u| match u {
                    Update::ObservationWithValue(_, t) => Update::ObservationWithValue((100 * step + *l as u64).into(), t),
                    u => Update::Observations(step, match u {
                        Update::Observation(t) | Update::Observations(_, t) => t,
                        _ => unreachable!(),
                    }),
                });
            }
            1 => {
                ad = ad.accept_all_labels();
                accepts = true;
            }
            _ => {
                ad = ad.accept_no_labels();
                accepts = false;
            }
        }
    }
    let at = T::any(100);
    let o = any_obs(x, at.instant());
    let n = ad.handle_observation(&o);
    let got = take(&l);
    check!(n == accepts as usize);
    check!(got.len() == n);
    if n == 1 {
        let g = got[0];
        let plain = seen(1, &o);
        check!(g.at == plain.at);
        if modified == 0 {
            check!(g.kind == plain.kind && g.bits == plain.bits);
        } else if plain.kind < 2 {
            check!(g.kind == 0 && g.bits == modified);
        } else {
            check!(g.kind == 3 && g.bits == 100 * modified + x as u64);
        }
    }
    cover!(accepts && modified == 2 && way == 1);
    cover!(!accepts && modified == 3 && way == 0);
});
