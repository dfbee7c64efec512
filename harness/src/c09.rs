//! C09: a gauge shows the last value set, changed by every delta since.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::*;

/// the value after an observation, for updates that a gauge reacts to
fn next(cur: Option<i64>, v: &ObservedValue) -> Option<i64> {
    match *v {
        ObservedValue::SignedInteger(x) => Some(x),
        ObservedValue::UnsignedInteger(x) => {
            if x < 1 << 63 {
                Some(x as i64)
            } else {
                cur
            }
        }
        ObservedValue::ChangedBy(d) => Some(match cur {
            Some(c) => c.saturating_add(d),
            None => d,
        }),
        ObservedValue::Bool(_) => cur,
        _ => unreachable!(),
    }
}
const KINDS: [Shape; 6] = [Shape::Signed, Shape::Unsigned, Shape::Bool, Shape::Delta, Shape::One, Shape::Many];

fn updates(n: usize) {
    let t = T::any(1 << 30).instant();
    let mut g = Gauge::new("g");
    let mut cur = None;
    if coin() {
        let v = i64v();
        g = g.value(v);
        cur = Some(v);
    }
    check!(g.get() == cur);
    let mut i = 0;
    while i < n {
        i += 1;
        let u = update_of(KINDS[pick(6)], t);
        if let Update::ObservationWithValue(v, _) = &u {
            cur = next(cur, v);
        }
        g.update(&u);
        check!(g.get() == cur);
    }
    let s = snap(&g);
    check!(int(&s, "g") == cur);
    check!(s.items.len() == cur.is_some() as usize);
    cover!(cur == Some(i64::MAX));
    cover!(cur.is_none());
}
//@ bounds=4_updates_of_any_shape_but_floats_and_durations,_with_or_without_initial_value shared=updates
harness!(c09_updates, {
    updates(4)
});
//@ bounds=5_updates_of_any_shape_but_floats_and_durations,_with_or_without_initial_value tier=thorough shared=updates shards=2
harness!(c09_updates_more, {
    updates(5)
});
// Floats are rounded to the nearest integer; those that do not fit change nothing.
//@ bounds=any_f64,_with_or_without_a_value
harness!(c09_float, {
    let t = T::any(1 << 30).instant();
    let x = f64v();
    let mut g = Gauge::new("g");
    let before = if coin() { Some(i64v()) } else { None };
    if let Some(v) = before {
        g.set(v.into());
    }
    g.update(&Update::ObservationWithValue(x.into(), t));
    let fits = (x >= -1e15) & (x <= 1e15);
    let never = (x != x) | (x >= 9.3e18) | (x <= -9.3e18);
    if fits {
        let got = g.get();
        check!(got.is_some());
        let d = got.unwrap_or(0) as f64 - x;
        check!((d <= 0.5) & (d >= -0.5));
    }
    if never {
        check!(g.get() == before);
    }
    cover!(fits);
    cover!(x != x);
});

// Adapters: by filter; deltas only; increment and decrement on labels, increments first.
//@ bounds=byte_labels,_2_observations_of_any_shape_but_floats_and_durations,_9_constructors
harness!(c09_adapter, {
    let t = T::any(1 << 30).instant();
    let (a, b) = (u8v(), u8v());
    let start = if coin() { Some(i64v()) } else { None };
    let mut g = Gauge::new("g");
    if let Some(v) = start {
        g = g.value(v);
    }
    let way = pick(9);
    let mut ad: GaugeAdapter<u8> = match way {
        0 => GaugeAdapter::new(g),
        1 => g.for_label(a),
        2 => g.for_labels(vec![a, b]),
        3 => g.for_label_deltas_only(a),
        4 => g.for_labels_deltas_only(vec![a, b]),
        5 => g.inc_dec_on(a, b),
        6 => g.inc_dec_on_many(vec![a], vec![b]),
        7 => g.inc_dec_by_predicates(move |x| *x <= a, move |x| *x <= b),
        _ => GaugeAdapter::deaf(g),
    };
    let mut cur = start;
    let mut i = 0;
    while i < 2 {
        i += 1;
        let x = u8v();
        let shape = KINDS[pick(6)];
        let o = obs_of(shape, x, t);
        let LabelAndUpdate(_, u) = obs_copy(&o).into();
        let n = ad.handle_observation(&o);
        let (inc, dec) = if way == 7 { (x <= a, x <= b) } else { (x == a, x == b) };
        match way {
            5 | 6 | 7 => {
                let d = if inc { 1 } else if dec { -1 } else { 0 };
                if inc | dec {
                    cur = Some(cur.unwrap_or(0).saturating_add(d));
                }
                check!(n == (inc | dec) as usize);
            }
            _ => {
                let ok = match way {
                    0 => true,
                    1 => inc,
                    2 => inc | dec,
                    3 => inc & (shape == Shape::Delta),
                    4 => (inc | dec) & (shape == Shape::Delta),
                    _ => false,
                };
                if let (true, Update::ObservationWithValue(v, _)) = (ok, &u) {
                    cur = next(cur, v);
                    check!((n == 1) | (shape == Shape::Bool) | (shape == Shape::Unsigned));
                } else {
                    check!(n == 0);
                }
            }
        }
        check!(ad.gauge().get() == cur);
    }
    check!(int(&snap(&ad), "g") == cur);
    cover!(way == 5 && a == b);
    cover!(way == 3 && cur != start);
});
fn obs_copy(o: &Observation<u8>) -> Observation<u8> {
    match o {
        Observation::Observed { label, count, timestamp } => Observation::Observed {
            label: *label,
            count: *count,
            timestamp: *timestamp,
        },
        Observation::ObservedOne { label, timestamp } => Observation::ObservedOne {
            label: *label,
            timestamp: *timestamp,
        },
        Observation::ObservedOneValue { label, value, timestamp } => Observation::ObservedOneValue {
            label: *label,
            value: *value,
            timestamp: *timestamp,
        },
    }
}

// Counting things that come and go: the gauge is the number of increments minus the number of
// decrements, in whatever order they arrive.
//@ bounds=3_observations,_each_one_of_Increment,_Decrement,_by_any_u32
harness!(c09_deltas, {
    let t = T::any(1 << 30).instant();
    let mut g = Gauge::new("g");
    let mut sum = 0i64;
    let mut i = 0;
    while i < 3 {
        i += 1;
        let n = u32v();
        let v: ObservedValue = match pick(4) {
            0 => {
                sum += 1;
                Increment.into()
            }
            1 => {
                sum -= 1;
                Decrement.into()
            }
            2 => {
                sum += n as i64;
                IncrementBy(n).into()
            }
            _ => {
                sum -= n as i64;
                DecrementBy(n).into()
            }
        };
        check!(g.update(&Update::ObservationWithValue(v, t)) == 1);
    }
    check!(g.get() == Some(sum));
    cover!(sum < 0);
});
// A group shows its value as `current` below its name.
//@ bounds=any_value
harness!(c09_group, {
    let v = i64v();
    let mut g = Gauge::new("g").group_values(true);
    let s = snap(&g);
    check!(sub(&s, "g").map(|s| s.items.len()) == Some(0));
    g.set(v.into());
    let s = snap(&g);
    check!(s.items.len() == 1);
    check!(sub(&s, "g").and_then(|s| int(s, "current")) == Some(v));
    cover!();
});
// However many changes, one after the other.
//@ bounds=300_changes_of_5_kinds_of_a_gauge_that_begins_with_one_of_5_values
harness!(c09_many, {
    let t = T::new(5000, 0).instant();
    let start = [0, -5, 1 << 40, i64::MAX - 9, i64::MIN + 9][pick(5)];
    let mut ad: GaugeAdapter<u8> = Gauge::new("g").value(start).inc_dec_on(1, 2);
    let mut n = start;
    for i in 0..300i64 {
        let o = match i % 4 {
            0 => Observation::Observed {
                label: 1,
                count: i as u64,
                timestamp: t,
            },
            1 => Observation::ObservedOne {
                label: 2,
                timestamp: t,
            },
            2 => Observation::ObservedOneValue {
                label: 3,
                value: ObservedValue::ChangedBy(1000),
                timestamp: t,
            },
            _ => Observation::Observed {
                label: 2,
                count: 2 * i as u64,
                timestamp: t,
            },
        };
        n = n.saturating_add(match i % 4 {
            0 => 1,
            2 => 0,
            _ => -1,
        });
        ad.handle_observation(&o);
        if i % 50 == 49 {
            check!(int(&snap(&ad), "g") == Some(n));
        }
    }
    let mut g = Gauge::new("h").value(start);
    n = start;
    for i in 0..300i64 {
        g.update(&Update::ObservationWithValue(ObservedValue::ChangedBy(i - 100), t));
        if i % 100 == 7 {
            g.update(&Update::ObservationWithValue(ObservedValue::SignedInteger(start), t));
            n = start;
        } else {
            n = n.saturating_add(i - 100);
        }
    }
    check!(g.get() == Some(n));
    cover!(start < 0);
    cover!(start > 0);
});
