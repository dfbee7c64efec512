//! C11: meters count occurrences (or add up values) and show moving averages of their rate.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::Instant;

fn plus(a: i64, b: i64) -> i64 {
    a.saturating_add(b)
}
fn rate(s: &Snapshot, which: &str) -> Option<f64> {
    sub(s, which).and_then(|s| float(s, "rate"))
}

fn counts(n_updates: u64) {
    let t0 = T::new(1000, 0);
    t0.go();
    let mut m = Meter::new("m");
    let mut want = 0i64;
    let mut i = 0;
    while i < n_updates {
        i += 1;
        T::new(1000 + 3 * i, u32v() % 1_000_000_000).go();
        let u = match pick(3) {
            0 => {
                let n = u64v();
                want = plus(want, n.min(i64::MAX as u64) as i64);
                Update::Observations(n, Instant::now())
            }
            1 => {
                want = plus(want, 1);
                Update::Observation(Instant::now())
            }
            _ => {
                want = plus(want, 1);
                update_of(Shape::Signed, Instant::now())
            }
        };
        check!(m.update(&u) == 1);
        let s = snap(&m);
        check!(uint(sub(&s, "m").unwrap(), "count") == Some(want as u64));
    }
    cover!(want == i64::MAX);
    cover!(want == 3);
}
// The count is the number of observed occurrences; observations with a value count as one.
//@ bounds=3_updates_of_any_shape,_any_times_within_9_s shared=counts
harness!(c11_count, {
    counts(3)
});
//@ bounds=4_updates_of_any_shape,_any_times_within_9_s tier=thorough shared=counts timeout=800
harness!(c11_count_more, {
    counts(4)
});
// The count of a value meter is the sum of the values, other observations are ignored.
//@ bounds=3_updates_of_any_shape,_values_not_negative
harness!(c11_values, {
    T::new(1000, 0).go();
    let t = Instant::now();
    let mut m = ValueMeter::new("m");
    let mut want = 0i64;
    let mut i = 0;
    while i < 3 {
        i += 1;
        let shape = SHAPES[pick(8)];
        assume(shape != Shape::Float && shape != Shape::Dur);
        let u = update_of(shape, t);
        let mut value = None;
        if let Update::ObservationWithValue(v, _) = &u {
            match *v {
                ObservedValue::SignedInteger(x) => {
                    assume(x >= 0);
                    value = Some(x);
                }
                ObservedValue::UnsignedInteger(x) => {
                    if x < 1 << 63 {
                        value = Some(x as i64);
                    }
                }
                _ => {}
            }
        }
        let n = m.update(&u);
        check!(n == value.is_some() as usize);
        want = plus(want, value.unwrap_or(0));
        check!(uint(sub(&snap(&m), "m").unwrap(), "count") == Some(want as u64));
    }
    cover!(want == i64::MAX);
    cover!(want == 0);
});

/// the rate per second over the given 5 s intervals, smoothed with a time constant of `minutes`
fn ewma(counts: &[u64], done: usize, minutes: f64) -> f64 {
    let alpha = 1.0 - (-5.0f64 / 60.0 / minutes).exp();
    let mut r = 0.0;
    for i in 0..done {
        let c = counts[i] as f64 / 5.0;
        if i == 0 {
            r = c;
        } else {
            r += alpha * (c - r);
        }
    }
    r
}
fn near(a: Option<f64>, b: f64) -> bool {
    match a {
        None => false,
        Some(a) => {
            let d = a - b;
            let tol = 1e-9 * (1.0 + b);
            (d <= tol) & (d >= -tol)
        }
    }
}
/// some time in the given second
fn nanos_at(s: u64) -> T {
    let n = u32v();
    assume(n < 1_000_000_000);
    T { s, n }
}

fn rates(n_updates: usize) {
    const GAPS: [u64; 4] = [0, 4, 5, 11];
    const NS: [u64; 3] = [1, 7, 1000];
    let values = pick(2) == 1;
    let t0 = nanos_at(1000);
    t0.go();
    let mut m = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    let mut v = ValueMeter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    let mut counts = [0u64; 16];
    let mut t = t0;
    let mut i = 0;
    while i < n_updates {
        i += 1;
        let u = nanos_at(t.s + GAPS[pick(4)]);
        assume(t.le(u));
        t = u;
        let k = conc(t.since(t0).0 / 5) as usize;
        let n = NS[pick(3)];
        counts[k] += n;
        t.go();
        if values {
            v.update(&Update::ObservationWithValue(n.into(), Instant::now()));
        } else {
            m.update(&Update::Observations(n, Instant::now()));
        }
    }
    let u = nanos_at(t.s + GAPS[pick(4)]);
    assume(t.le(u));
    t = u;
    t.go();
    let k = conc(t.since(t0).0 / 5) as usize;
    let s = if values { snap(&v) } else { snap(&m) };
    let s = sub(&s, "m").unwrap();
    for (name, minutes) in [("one_minute", 1.0), ("five_minutes", 5.0), ("fifteen_minutes", 15.0)] {
        let want = ewma(&counts, k, minutes);
        check!(near(rate(s, name), if want < 0.001 { 0.0 } else { want }));
    }
    // looking again changes nothing
    let s2 = if values { snap(&v) } else { snap(&m) };
    check!(rate(s, "one_minute") == rate(sub(&s2, "m").unwrap(), "one_minute"));
    cover!(k == 0);
    cover!(k > 2 && values);
}
// Rates: nothing before the first 5 s are over, then the rate of those 5 s, then a moving average
// per 5 s, however updates and looks are spread over time.
//@ bounds=2_updates_of_1_7_or_1000_occurrences_and_2_snapshots_at_any_nanosecond_of_seconds_0,4,5,11_apart,_both_kinds_of_meter cost=10 shards=2 shared=rates
harness!(c11_rates, {
    rates(2)
});
//@ bounds=3_updates_of_1_7_or_1000_occurrences_and_2_snapshots_at_any_nanosecond_of_seconds_0,4,5,11_apart,_both_kinds_of_meter tier=thorough shared=rates shards=6 timeout=800
harness!(c11_rates_more, {
    rates(3)
});
// A rate below the cutoff is shown as zero, one above as it is; the count does not care.
//@ bounds=any_f64_as_cutoff,_3_occurrences_in_5_s
harness!(c11_cutoff, {
    T::new(1000, 0).go();
    let cutoff = f64v();
    let values = coin();
    let mut m = Meter::new("m").lower_cutoff(cutoff).five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    let mut v = ValueMeter::new("m").lower_cutoff(cutoff).five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    m.update(&Update::Observations(3, Instant::now()));
    v.update(&Update::ObservationWithValue(3.into(), Instant::now()));
    T::new(1005, 0).go();
    let s = if values { snap(&v) } else { snap(&m) };
    let s = sub(&s, "m").unwrap();
    for w in ["one_minute", "five_minutes", "fifteen_minutes"] {
        let r = rate(s, w).unwrap();
        if cutoff <= 0.59 {
            check!((r > 0.59) & (r < 0.61));
        }
        if cutoff >= 0.61 {
            check!(r == 0.0);
        }
    }
    check!(uint(s, "count") == Some(3));
    cover!(cutoff >= 0.61 && values);
    cover!(cutoff <= 0.59 && !values);
});
// Each rate is shown if it is enabled; by default only that of one minute.
//@ bounds=all_combinations,_both_kinds_of_meter
harness!(c11_enabled, {
    T::new(1000, 0).go();
    let values = coin();
    let s = if values { snap(&ValueMeter::new("m")) } else { snap(&Meter::new("m")) };
    let s = sub(&s, "m").unwrap();
    check!(rate(s, "one_minute") == Some(0.0));
    check!(item(s, "five_minutes").is_none());
    check!(item(s, "fifteen_minutes").is_none());
    check!(uint(s, "count") == Some(0));
    let (a, b, c) = (coin(), coin(), coin());
    let s = if values {
        snap(&ValueMeter::new("m").one_minute_rate_enabled(a).five_minute_rate_enabled(b).fifteen_minute_rate_enabled(c))
    } else {
        snap(&Meter::new("m").one_minute_rate_enabled(a).five_minute_rate_enabled(b).fifteen_minute_rate_enabled(c))
    };
    let s = sub(&s, "m").unwrap();
    check!(rate(s, "one_minute").is_some() == a);
    check!(rate(s, "five_minutes").is_some() == b);
    check!(rate(s, "fifteen_minutes").is_some() == c);
    cover!(a && b && c && values);
});

// The rates go on falling however long nothing happens.
//@ bounds=1_7_or_1000_occurrences,_looked_at_after_30_s_to_2_days_(or_also_halfway),_both_kinds_of_meter cost=3
harness!(c11_long, {
    let n = [1u64, 7, 1000][pick(3)];
    let gap = [30u64, 60, 61, 300, 899, 3600, 36_000, 172_800][pick(8)];
    T::new(1000, 0).go();
    let mut m = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    let mut v = ValueMeter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    let values = coin();
    if values {
        v.update(&Update::ObservationWithValue(n.into(), Instant::now()));
    } else {
        m.update(&Update::Observations(n, Instant::now()));
    }
    if coin() {
        T::new(1000 + gap / 2, 9).go();
        if values {
            snap(&v);
        } else {
            snap(&m);
        }
    }
    T::new(1000 + gap, 0).go();
    let s = if values { snap(&v) } else { snap(&m) };
    let s = sub(&s, "m").unwrap();
    check!(uint(s, "count") == Some(n));
    let mut counts = vec![0u64; gap as usize / 5 + 1];
    counts[0] = n;
    for (name, minutes) in [("one_minute", 1.0), ("five_minutes", 5.0), ("fifteen_minutes", 15.0)] {
        let want = ewma(&counts, gap as usize / 5, minutes);
        let got = rate(s, name);
        // (0.001 is the default cutoff)
        if want < 0.00099 {
            check!(got == Some(0.0));
        } else if want > 0.00101 {
            check!(near(got, want));
        }
    }
    cover!(gap == 36_000 && values);
});

// However many there are, the rate never wraps around.
//@ bounds=any_2_counts_and_one_of_1000_and_u64::MAX_within_5_s,_both_kinds_of_meter
harness!(c11_flood, {
    T::new(1000, 0).go();
    let mut m = Meter::new("m").five_minute_rate_enabled(true);
    let mut v = ValueMeter::new("m").five_minute_rate_enabled(true);
    let values = coin();
    let (a, b) = (u64v(), u64v());
    let ns = [a, [1000, u64::MAX][pick(2)], b];
    let mut most = 0u64;
    for n in ns {
        let n = if values { n.min(i64::MAX as u64) } else { n };
        most = most.max(n);
        if values {
            v.update(&Update::ObservationWithValue(n.into(), Instant::now()));
        } else {
            m.update(&Update::Observations(n, Instant::now()));
        }
    }
    T::new(1005, 0).go();
    let s = if values { snap(&v) } else { snap(&m) };
    let s = sub(&s, "m").unwrap();
    // (counts end at i64::MAX)
    let least = most.min(i64::MAX as u64) / 6;
    let r = rate(s, "one_minute").unwrap();
    check!(r >= least as f64);
    check!(rate(s, "five_minutes") == Some(r));
    cover!(values);
    cover!(!values && least > 1 << 60);
});
