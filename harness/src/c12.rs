//! C12: a histogram shows count, extremes, mean, deviation and quantiles of the values it was given.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::Instant;

const QS: [&str; 7] = ["p25", "p50", "p75", "p95", "p98", "p99", "p999"];

fn upd(h: &mut Histogram, v: ObservedValue) -> usize {
    h.update(&Update::ObservationWithValue(v, Instant::now()))
}

fn values(most: u8) {
    T::new(1000, 0).go();
    let n = 1 + pick(most);
    let mut h = Histogram::new("h");
    let mut vs = Vec::new();
    let mut i = 0;
    while i < n {
        i += 1;
        let v = i64v();
        vs.push(v);
        check!(upd(&mut h, v.into()) == 1);
    }
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    check!(uint(s, "count") == Some(n as u64));
    let (lo, hi) = (int(s, "min").unwrap(), int(s, "max").unwrap());
    let (mut some_lo, mut some_hi) = (false, false);
    for v in &vs {
        check!((lo <= *v) & (*v <= hi));
        some_lo |= lo == *v;
        some_hi |= hi == *v;
    }
    check!(some_lo);
    check!(some_hi);
    let q = sub(s, "quantiles").unwrap();
    check!(q.items.len() == 7);
    let mut last = lo;
    for name in QS {
        let x = int(q, name).unwrap();
        let mut found = false;
        for v in &vs {
            found |= x == *v;
        }
        check!(found);
        check!(last <= x);
        last = x;
    }
    check!(last <= hi);
    cover!(n == most as usize && lo < hi);
}
// Any values: the count and the extremes are exact, the quantiles are among the values and in order.
//@ bounds=1_to_3_values,_any_i64 shared=values
harness!(c12_values, {
    values(3)
});
//@ bounds=1_to_4_values,_any_i64 tier=thorough shared=values timeout=800
harness!(c12_values_more, {
    values(4)
});
// Each quantile is the value at its rank (give or take rounding).
//@ bounds=400_values_base+1_to_base+400_for_any_base_within_+-2^20,_values_of_one_moment cost=10
harness!(c12_quantiles, {
    T::new(1000, 0).go();
    let base = (u32v() >> 12) as i64;
    let mut h = Histogram::new("h");
    for i in 1..=400i64 {
        upd(&mut h, (base + i).into());
    }
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    check!(uint(s, "count") == Some(400));
    check!(int(s, "min") == Some(base + 1));
    check!(int(s, "max") == Some(base + 400));
    let q = sub(s, "quantiles").unwrap();
    for (name, rank) in [("p25", 100), ("p50", 200), ("p75", 300), ("p95", 380), ("p98", 392), ("p99", 396), ("p999", 400)] {
        let x = int(q, name).unwrap_or(0).wrapping_sub(base);
        check!((x >= rank - 3) & (x <= rank + 3));
    }
    cover!(base > 5);
});
// Mean and deviation.
//@ bounds=3_values,_each_one_of_-3,_0,_4,_1000
harness!(c12_mean, {
    T::new(1000, 0).go();
    const VS: [i64; 4] = [-3, 0, 4, 1000];
    let mut h = Histogram::new("h");
    let vs = [VS[pick(4)], VS[pick(4)], VS[pick(4)]];
    for v in vs {
        upd(&mut h, v.into());
    }
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    let mean = (vs[0] + vs[1] + vs[2]) as f64 / 3.0;
    let mut var = 0.0;
    for v in vs {
        var += (v as f64 - mean) * (v as f64 - mean) / 3.0;
    }
    let d = float(s, "mean").unwrap() - mean;
    check!((d < 1e-6) & (d > -1e-6));
    let sd = float(s, "stddev").unwrap();
    let d = sd * sd - var;
    check!((d < 1e-3) & (d > -1e-3) & (sd >= 0.0));
    cover!(sd > 1.0);
});
// What has no value is ignored and not counted; an empty histogram shows the count only.
//@ bounds=2_updates_of_any_shape_but_floats
harness!(c12_ignored, {
    T::new(1000, 0).go();
    let mut h = Histogram::new("h");
    let s = snap(&h);
    let e = sub(&s, "h").unwrap();
    check!(uint(e, "count") == Some(0));
    check!(e.items.len() == 1);
    let mut want = 0;
    let mut i = 0;
    while i < 2 {
        i += 1;
        let shape = any_shape();
        assume(shape != Shape::Float);
        let u = update_of(shape, Instant::now());
        let counts = match &u {
            Update::ObservationWithValue(ObservedValue::SignedInteger(_), _) => true,
            Update::ObservationWithValue(ObservedValue::UnsignedInteger(x), _) => *x < 1 << 63,
            Update::ObservationWithValue(ObservedValue::Duration(..), _) => true,
            _ => false,
        };
        if counts {
            want += 1;
        }
        check!(h.update(&u) == counts as usize);
    }
    check!(uint(sub(&snap(&h), "h").unwrap(), "count") == Some(want));
    cover!(want == 2);
    cover!(want == 0);
});
// Floats are rounded; what is not a number or out of range is ignored.
//@ bounds=any_f64
harness!(c12_float, {
    T::new(1000, 0).go();
    let x = f64v();
    let mut h = Histogram::new("h");
    let n = upd(&mut h, x.into());
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    check!(uint(s, "count") == Some(n as u64));
    if (x >= -1e15) & (x <= 1e15) {
        check!(n == 1);
        let d = int(s, "max").unwrap_or(i64::MIN) as f64 - x;
        check!((d <= 0.5) & (d >= -0.5));
        cover!();
    }
    if (x != x) | (x >= 9.3e18) | (x <= -9.3e18) {
        check!(n == 0);
        cover!();
    }
});
// Values given at different times are all there, the counts and extremes do not depend on when.
//@ bounds=2_values,_any_i64,_1_2_30_or_4000_s_apart
harness!(c12_over_time, {
    T::new(1000, 7).go();
    let mut h = Histogram::new("h");
    let (a, b) = (i64v(), i64v());
    upd(&mut h, a.into());
    let gap = [1u64, 2, 30, 4000][pick(4)];
    T::new(1000 + gap, 999).go();
    upd(&mut h, b.into());
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    check!(uint(s, "count") == Some(2));
    check!(int(s, "min") == Some(if a < b { a } else { b }));
    check!(int(s, "max") == Some(if a < b { b } else { a }));
    cover!(gap == 4000);
});

// However many values: all are counted, what is shown lies among them.
//@ bounds=2000_values_around_any_base_within_+-2^20 cost=6
harness!(c12_many, {
    T::new(1000, 0).go();
    let base = (u32v() >> 12) as i64;
    let mut h = Histogram::new("h");
    for i in 1..=2000i64 {
        check!(upd(&mut h, (base + i).into()) == 1);
    }
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    check!(uint(s, "count") == Some(2000));
    let (lo, hi) = (int(s, "min").unwrap_or(0) - base, int(s, "max").unwrap_or(0) - base);
    check!((lo >= 1) & (lo <= hi) & (hi <= 2000));
    let q = sub(s, "quantiles").unwrap();
    let mut last = lo;
    for name in QS {
        let x = int(q, name).unwrap_or(0) - base;
        check!(last <= x);
        last = x;
    }
    check!(last <= hi);
    cover!(base > 5);
});
