//! C10: a tracking gauge shows the extremes and averages of its last seconds.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::*;

#[derive(Clone, Copy)]
struct Bin {
    n: i64,
    sum: i64,
    min: i64,
    max: i64,
}
struct Want {
    peak: i64,
    peak_min: i64,
    bottom: i64,
    bottom_max: i64,
    peaks: i64,
    bottoms: i64,
    bins: i64,
    sum: i64,
    n: i64,
}
fn min(a: i64, b: i64) -> i64 {
    if a < b {
        a
    } else {
        b
    }
}
fn max(a: i64, b: i64) -> i64 {
    if a > b {
        a
    } else {
        b
    }
}
/// `secs[i]` is the whole number of seconds between creation and the i-th value (concrete)
fn expect(secs: &[u64], vals: &[i64], now: u64, window: u64) -> Option<Want> {
    let mut w: Option<Want> = None;
    for back in 0..window {
        if back > now {
            break;
        }
        let mut b: Option<Bin> = None;
        for i in 0..secs.len() {
            if secs[i] == now - back {
                let v = vals[i];
                b = Some(match b {
                    None => Bin { n: 1, sum: v, min: v, max: v },
                    Some(b) => Bin {
                        n: b.n + 1,
                        sum: b.sum + v,
                        min: min(b.min, v),
                        max: max(b.max, v),
                    },
                });
            }
        }
        if let Some(b) = b {
            w = Some(match w {
                None => Want {
                    peak: b.max,
                    peak_min: b.max,
                    bottom: b.min,
                    bottom_max: b.min,
                    peaks: b.max,
                    bottoms: b.min,
                    bins: 1,
                    sum: b.sum,
                    n: b.n,
                },
                Some(w) => Want {
                    peak: max(w.peak, b.max),
                    peak_min: min(w.peak_min, b.max),
                    bottom: min(w.bottom, b.min),
                    bottom_max: max(w.bottom_max, b.min),
                    peaks: w.peaks + b.max,
                    bottoms: w.bottoms + b.min,
                    bins: w.bins + 1,
                    sum: w.sum + b.sum,
                    n: w.n + b.n,
                },
            });
        }
    }
    w
}
/// `x` is the mean `sum / n` up to rounding
fn mean(x: Option<f64>, sum: i64, n: i64) -> bool {
    match x {
        None => false,
        Some(x) => {
            let want = sum as f64 / n as f64;
            if x == want {
                return true;
            }
            let d = x - want;
            (d < 1e-6) & (d > -1e-6)
        }
    }
}
fn matches(s: &metrix::snapshot::Snapshot, w: &Want) {
    check!(int(s, "peak") == Some(w.peak));
    check!(int(s, "peak_min") == Some(w.peak_min));
    check!(int(s, "bottom") == Some(w.bottom));
    check!(int(s, "bottom_max") == Some(w.bottom_max));
    check!(mean(float(s, "avg"), w.sum, w.n));
    check!(mean(float(s, "peak_avg"), w.peaks, w.bins));
    check!(mean(float(s, "bottom_avg"), w.bottoms, w.bins));
}
/// a gauge created at t0
fn gauge(t0: T, window: usize) -> Gauge {
    t0.go();
    Gauge::new("g").group_values(true).tracking(window)
}
/// some time in the given second
fn nanos_at(s: u64) -> T {
    let n = u32v();
    assume(n < 1_000_000_000);
    T { s, n }
}
/// some time not before t in the second `gap` seconds later
fn step(t: T, gap: u64) -> T {
    let u = nanos_at(t.s + gap);
    assume(t.le(u));
    u
}
fn soon(t: T, gaps: u8) -> T {
    step(t, pick(gaps) as u64)
}
/// whole seconds from t0 to t, as a concrete number
fn secs(t0: T, t: T) -> u64 {
    conc(t.since(t0).0)
}

// Values at any times: what is shown is over those set during the current second and the window's
// seconds before it, seconds counted from the creation of the gauge.
//@ bounds=2_values_within_+-2^15,_window_1_to_3_s,_any_times_in_seconds_0_to_4_apart cost=10
harness!(c10_window2, {
    let window = 1 + pick(3);
    let t0 = nanos_at(1000);
    let mut g = gauge(t0, window);
    let (mut ss, mut vs) = (Vec::new(), Vec::new());
    let mut t = t0;
    let mut i = 0;
    while i < 2 {
        i += 1;
        t = soon(t, 5);
        ss.push(secs(t0, t));
        let v = u16v() as i16 as i64;
        vs.push(v);
        t.go();
        g.set(v.into());
    }
    let t = soon(t, 5);
    let now = secs(t0, t);
    t.go();
    let s = snap(&g);
    let s = sub(&s, "g").unwrap();
    check!(int(s, "current") == Some(vs[1]));
    match expect(&ss, &vs, now, window as u64) {
        Some(w) => {
            matches(s, &w);
            cover!(w.n == 1);
            cover!(w.bins == 2);
        }
        None => {
            // nothing in the window: the current value
            let v = vs[1];
            check!(int(s, "peak") == Some(v));
            check!(int(s, "peak_min") == Some(v));
            check!(int(s, "bottom") == Some(v));
            check!(int(s, "bottom_max") == Some(v));
            check!(float(s, "avg") == Some(v as f64));
            check!(float(s, "peak_avg") == Some(v as f64));
            check!(float(s, "bottom_avg") == Some(v as f64));
            cover!();
        }
    }
});
fn window3(window: usize) {
    let gap0 = pick(5);
    let window = window as u64;
    let t0 = nanos_at(1000);
    let mut g = gauge(t0, window as usize);
    let (mut ss, mut vs) = (Vec::new(), Vec::new());
    let mut t = t0;
    let mut i = 0;
    while i < 3 {
        t = if i == 0 { step(t, gap0 as u64) } else { soon(t, window as u8 + 2) };
        ss.push(secs(t0, t));
        let v = u16v() as i16 as i64;
        vs.push(v);
        t.go();
        if i == 2 {
            // a look in between changes nothing
            snap(&g);
        }
        g.set(v.into());
        i += 1;
    }
    let now = ss[2];
    let s = snap(&g);
    let s = sub(&s, "g").unwrap();
    match expect(&ss, &vs, now, window) {
        Some(w) => {
            matches(s, &w);
            cover!(w.n == 2);
            cover!(w.bins == 2);
        }
        None => check!(false),
    }
}
// The same with three values, snapshots in between.
//@ bounds=3_values_within_+-2^15,_window_2_s,_any_times_in_seconds_0_to_3_apart,_a_snapshot_after_each cost=20 shards=4 shared=window3
harness!(c10_window3, {
    window3(2)
});
//@ bounds=3_values_within_+-2^15,_window_3_s,_any_times_in_seconds_0_to_4_apart,_a_snapshot_after_each tier=thorough shared=window3 shards=5 timeout=800
harness!(c10_window3_more, {
    window3(3)
});
// Long after the last value (any gap at all) the current value is shown for everything.
//@ bounds=one_value,_window_1_to_4_s,_any_gap_beyond_the_window_up_to_2^40_s
harness!(c10_long_gap, {
    let window = 1 + pick(4);
    let t0 = T::any(1 << 20);
    let mut g = gauge(t0, window);
    let v = i64v();
    g.set(v.into());
    let t = later(t0, 1 << 40);
    assume(t.since(t0).0 >= window as u64);
    t.go();
    let s = snap(&g);
    let s = sub(&s, "g").unwrap();
    check!(int(s, "current") == Some(v));
    check!(int(s, "peak") == Some(v));
    check!(int(s, "bottom") == Some(v));
    check!(int(s, "peak_min") == Some(v));
    check!(int(s, "bottom_max") == Some(v));
    check!(float(s, "avg") == Some(v as f64));
    cover!();
});
// Deltas are tracked by the value they lead to; the extremes are those of the values, whatever
// their size.
//@ bounds=3_values_in_one_second,_any_i64,_the_second_a_delta
harness!(c10_extremes, {
    let mut g = gauge(T::new(5000, 7), 1);
    let (a, d, c) = (i64v(), i64v(), i64v());
    g.set(a.into());
    g.set(ChangeBy(d).into());
    g.set(c.into());
    let b = a.saturating_add(d);
    let s = snap(&g);
    let s = sub(&s, "g").unwrap();
    check!(int(s, "current") == Some(c));
    check!(int(s, "peak") == Some(max(max(a, b), c)));
    check!(int(s, "bottom") == Some(min(min(a, b), c)));
    check!(int(s, "peak_min") == Some(max(max(a, b), c)));
    check!(int(s, "bottom_max") == Some(min(min(a, b), c)));
    cover!(c < b && b < a);
});
// Without grouping the names are prefixed with the name of the gauge; without tracking (or a window
// of 0 seconds) there is only the value.
//@ bounds=any_value
harness!(c10_names, {
    T::new(5000, 7).go();
    let v = i64v();
    let g = Gauge::new("g").tracking(2).value(v);
    let s = snap(&g);
    check!(s.items.len() == 8);
    check!(int(&s, "g") == Some(v));
    check!(int(&s, "g_peak") == Some(v));
    check!(int(&s, "g_peak_min") == Some(v));
    check!(int(&s, "g_bottom") == Some(v));
    check!(int(&s, "g_bottom_max") == Some(v));
    check!(float(&s, "g_avg") == Some(v as f64));
    check!(float(&s, "g_peak_avg") == Some(v as f64));
    check!(float(&s, "g_bottom_avg") == Some(v as f64));
    let g = Gauge::new("g").tracking(0).value(v);
    check!(snap(&g).items.len() == 1);
    let g = Gauge::new("g").tracking(2);
    check!(snap(&g).items.is_empty());
    cover!();
});

// Windows of the usual sizes.
//@ bounds=windows_of_5_10_60_and_600_s,_3_values_within_+-2^15,_the_first_two_0_or_half_or_one_less_than_a_window_apart,_looked_at_0_1_or_2_s_before_or_after_the_first_or_second_leaves_it cost=4 shards=2
harness!(c10_wide, {
    let w = [5u64, 10, 60, 600][pick(4)];
    let start = [0u64, 1, 700][pick(3)];
    let t0 = nanos_at(1000);
    let mut g = gauge(t0, w as usize);
    let second = start + [0, w / 2, w - 1, w, 3 * w][pick(5)];
    let of = [start, second][pick(2)];
    let now = of + w + pick(3) as u64 - 1;
    assume(second <= now);
    let (mut ss, mut vs) = (Vec::new(), Vec::new());
    for s in [start, second, second] {
        let v = u16v() as i16 as i64;
        ss.push(s);
        vs.push(v);
        T { s: t0.s + s, n: t0.n }.go();
        g.set(v.into());
    }
    T { s: t0.s + now, n: t0.n }.go();
    let s = snap(&g);
    let s = sub(&s, "g").unwrap();
    check!(int(s, "current") == Some(vs[2]));
    match expect(&ss, &vs, now, w) {
        Some(w) => {
            matches(s, &w);
            cover!(w.n == 2);
            cover!(w.bins == 2);
        }
        None => {
            check!(int(s, "peak") == Some(vs[2]));
            check!(int(s, "bottom") == Some(vs[2]));
            cover!();
        }
    }
});
