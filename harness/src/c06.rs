//! C06: conversions into and out of observed values.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::Duration;

fn value(shape: Shape) -> ObservedValue {
    match shape {
        Shape::Signed => ObservedValue::SignedInteger(i64v()),
        Shape::Unsigned => ObservedValue::UnsignedInteger(u64v()),
        Shape::Float => ObservedValue::Float(f64v()),
        Shape::Bool => ObservedValue::Bool(flag()),
        Shape::Dur => ObservedValue::Duration(u64v(), any_unit()),
        _ => ObservedValue::ChangedBy(i64v()),
    }
}
fn any_value() -> ObservedValue {
    value(SHAPES[2 + pick(6)])
}
/// nearest whole number, halves away from zero
fn nearest(v: f64) -> f64 {
    let t = v.trunc();
    let f = v - t;
    if f >= 0.5 {
        t + 1.0
    } else if f <= -0.5 {
        t - 1.0
    } else {
        t
    }
}

const TWO63: f64 = 9223372036854775808.0;
const TWO64: f64 = 18446744073709551616.0;

// Integers convert to the other kind of integer exactly when they are in range; booleans, durations
// and deltas never convert.
//@ bounds=any_observed_value_but_floats
harness!(c06_integers, {
    let v = SHAPES[2 + pick(6)];
    assume(v != Shape::Float);
    let v = value(v);
    let i = v.convert_to_i64();
    let u = v.convert_to_u64();
    match v {
        ObservedValue::SignedInteger(x) => {
            check!(i == Some(x));
            check!(u.is_some() == (x >= 0));
            check!((x < 0) | (u.unwrap_or(0) == x as u64));
            cover!(x < 0);
        }
        ObservedValue::UnsignedInteger(x) => {
            check!(u == Some(x));
            check!(i.is_some() == (x < 1 << 63));
            check!((x >= 1 << 63) | (i.unwrap_or(0) == x as i64));
            cover!(x >= 1 << 63);
        }
        _ => {
            check!(i.is_none());
            check!(u.is_none());
            cover!();
        }
    }
});

// A float converts to the nearest integer if that is in the range of the integer, and does not
// convert otherwise.
//@ bounds=any_f64
harness!(c06_float_i64, {
    let x = f64v();
    let i = ObservedValue::Float(x).convert_to_i64();
    let n = nearest(x);
    let fits = (n >= -TWO63) & (n < TWO63);
    check!(i.is_some() == fits);
    if let Some(i) = i {
        check!(i == n as i64);
    }
    cover!(fits);
    cover!(!fits && x < 0.0);
    cover!(!fits && x > 0.0);
    cover!(x != x);
});
//@ bounds=any_f64
harness!(c06_float_u64, {
    let x = f64v();
    let u = ObservedValue::Float(x).convert_to_u64();
    let n = nearest(x);
    let fits = (n >= 0.0) & (n < TWO64);
    check!(u.is_some() == fits);
    if let Some(u) = u {
        check!(u == n as u64);
    }
    cover!(fits);
    cover!(!fits && x < 0.0);
    cover!(!fits && x > 0.0);
    cover!(x != x);
});

// Integers and booleans convert to a boolean (anything but zero is true), nothing else does; only
// deltas are deltas; only plain values have an item for the snapshot, of the same value.
//@ bounds=any_observed_value
harness!(c06_bool_delta_item, {
    let v = any_value();
    let b = v.convert_to_bool();
    let item = v.to_item_kind();
    let delta = v.is_delta();
    match v {
        ObservedValue::SignedInteger(x) => {
            check!(b == Some(x != 0));
            check!(matches!(item, Some(ItemKind::Int(y)) if y == x));
            check!(!delta);
        }
        ObservedValue::UnsignedInteger(x) => {
            check!(b == Some(x != 0));
            check!(matches!(item, Some(ItemKind::UInt(y)) if y == x));
            check!(!delta);
        }
        ObservedValue::Float(x) => {
            check!(b.is_none());
            check!(matches!(item, Some(ItemKind::Float(y)) if y.to_bits() == x.to_bits()));
            check!(!delta);
        }
        ObservedValue::Bool(x) => {
            check!(b == Some(x));
            check!(matches!(item, Some(ItemKind::Boolean(y)) if y == x));
            check!(!delta);
        }
        ObservedValue::Duration(..) => {
            check!(b.is_none());
            check!(item.is_none());
            check!(!delta);
        }
        ObservedValue::ChangedBy(_) => {
            check!(b.is_none());
            check!(item.is_none());
            check!(delta);
            cover!();
        }
    }
    cover!(b.is_some());
});

fn is(v: ObservedValue, kind: u8, bits: u64) -> bool {
    let (k, b) = value_bits(&v);
    (k == kind) & (b == bits)
}

// Every number, boolean and delta keeps its value when it becomes an observed value.
//@ bounds=any_value_of_each_type
harness!(c06_from, {
    let x = u64v();
    check!(is((x as i64).into(), 2, x));
    check!(is((x as i32).into(), 2, x as i32 as i64 as u64));
    check!(is((x as i16).into(), 2, x as i16 as i64 as u64));
    check!(is((x as i8).into(), 2, x as i8 as i64 as u64));
    check!(is(x.into(), 3, x));
    check!(is((x as u32).into(), 3, x as u32 as u64));
    check!(is((x as u16).into(), 3, x as u16 as u64));
    check!(is((x as u8).into(), 3, x as u8 as u64));
    check!(is((x as usize).into(), 3, x));
    check!(is(f64::from_bits(x).into(), 4, x));
    check!(is((x & 1 == 1).into(), 5, x & 1));
    check!(is(Increment.into(), 6, 1));
    check!(is(Decrement.into(), 6, -1i64 as u64));
    check!(is(IncrementBy(x as u32).into(), 6, x as u32 as u64));
    check!(is(DecrementBy(x as u32).into(), 6, (-(x as u32 as i64)) as u64));
    check!(is(ChangeBy(x as i64).into(), 6, x));
    check!(is((x, TimeUnit::Milliseconds).into(), 12, x));
    cover!();
});

// A duration becomes its whole number of the unit (nanoseconds unless another is asked for), the
// biggest number there is if it does not fit.
//@ bounds=any_Duration,_4_units
harness!(c06_duration, {
    let d = any_duration();
    let unit = pick(5);
    let (v, k): (ObservedValue, u8) = match unit {
        0 => ((d, TimeUnit::Nanoseconds).into(), 10),
        1 => ((d, TimeUnit::Microseconds).into(), 11),
        2 => ((d, TimeUnit::Milliseconds).into(), 12),
        3 => ((d, TimeUnit::Seconds).into(), 13),
        _ => (d.into(), 10),
    };
    let per = match unit {
        1 => 1_000_000u128,
        2 => 1_000,
        3 => 1,
        _ => 1_000_000_000,
    };
    let exact = d.as_secs() as u128 * per + (d.subsec_nanos() / (1_000_000_000 / per) as u32) as u128;
    let want = if exact > u64::MAX as u128 { u64::MAX } else { exact as u64 };
    let (kind, bits) = value_bits(&v);
    check!(kind == k);
    check!(bits == want);
    cover!(unit == 4 && exact > u64::MAX as u128);
    cover!(unit == 3);
});

// The constructors of observations and the split into label and update keep label, contents and
// time.
//@ bounds=any_observation
harness!(c06_split, {
    let t = T::any(1 << 30).instant();
    let l = u8v();
    let o = any_obs(l, t);
    let want = seen(0, &o);
    let BorrowedLabelAndUpdate(bl, bu) = (&o).into();
    check!(*bl == l);
    check!(seen_update(0, *bl, &bu) == want);
    let has = bu.observed_value().is_some();
    check!(has == (want.kind > 1));
    check!(ObservationLike::is_delta(&o) == (want.kind == 6));
    check!(ObservationLike::timestamp(&o) == t);
    let LabelAndUpdate(ll, lu) = o.into();
    check!(ll == l);
    check!(seen_update(0, ll, &lu) == want);
    let n = u64v();
    let a = seen(0, &Observation::observed(l, n, t));
    check!((a.kind == 0) & (a.bits == n) & (a.label == l) & (a.at == t));
    let a = seen(0, &Observation::observed_one(l, t));
    check!((a.kind == 1) & (a.label == l) & (a.at == t));
    let a = seen(0, &Observation::observed_one_value(l, n, t));
    check!((a.kind == 3) & (a.bits == n) & (a.label == l) & (a.at == t));
    let later = T::any(1 << 30);
    later.go();
    let later = later.instant();
    let a = seen(0, &Observation::observed_now(l, n));
    check!((a.kind == 0) & (a.bits == n) & (a.label == l) & (a.at == later));
    let a = seen(0, &Observation::observed_one_now(l));
    check!((a.kind == 1) & (a.label == l) & (a.at == later));
    let a = seen(0, &Observation::observed_one_value_now(l, n as i64));
    check!((a.kind == 2) & (a.bits == n) & (a.label == l) & (a.at == later));
    let _ = Duration::from_secs(0);
    cover!(has);
});

fn is_item(i: ItemKind, kind: u8, bits: u64) -> bool {
    let (k, b) = match i {
        ItemKind::Int(v) => (2, v as u64),
        ItemKind::UInt(v) => (3, v),
        ItemKind::Float(v) => (4, v.to_bits()),
        ItemKind::Boolean(v) => (5, v as u64),
        _ => (0, 0),
    };
    (k == kind) & (b == bits)
}

// Every number, boolean and text keeps its value when it becomes an item of a snapshot.
//@ bounds=any_value_of_each_type,_texts_of_2_letters
harness!(c06_items, {
    let x = u64v();
    check!(is_item((x as i64).into(), 2, x));
    check!(is_item((x as i32).into(), 2, x as i32 as i64 as u64));
    check!(is_item((x as i16).into(), 2, x as i16 as i64 as u64));
    check!(is_item((x as i8).into(), 2, x as i8 as i64 as u64));
    check!(is_item((x as isize).into(), 2, x));
    check!(is_item(x.into(), 3, x));
    check!(is_item((x as u32).into(), 3, x as u32 as u64));
    check!(is_item((x as u16).into(), 3, x as u16 as u64));
    check!(is_item((x as u8).into(), 3, x as u8 as u64));
    check!(is_item((x as usize).into(), 3, x));
    check!(is_item(f64::from_bits(x).into(), 4, x));
    check!(is_item((x & 1 == 1).into(), 5, x & 1));
    let f = f32::from_bits(x as u32);
    assume(f == f);
    let g: ItemKind = f.into();
    check!(matches!(g, ItemKind::Float(v) if v as f32 == f));
    let (a, b) = (any_name().1, any_name().1);
    let text = format!("{}{}", a, b);
    let i: ItemKind = text.as_str().into();
    check!(matches!(&i, ItemKind::Text(t) if *t == text));
    let i: ItemKind = text.clone().into();
    check!(matches!(&i, ItemKind::Text(t) if *t == text));
    let mut s = Snapshot::default();
    check!(s.items.is_empty());
    s.push(text.clone(), x);
    let i: ItemKind = s.clone().into();
    check!(matches!(&i, ItemKind::Snapshot(t) if *t == s));
    cover!(f < 0.0);
});

// An observed value becomes the same item whichever way it is asked for.
//@ bounds=any_observed_value
harness!(c06_item_or_none, {
    let v = any_value();
    let (kind, bits) = value_bits(&v);
    let a: Option<ItemKind> = v.into();
    let b = v.to_item_kind();
    check!(a.is_some() == ((kind >= 2) & (kind <= 5)));
    check!(b.is_some() == a.is_some());
    if let (Some(a), Some(b)) = (a, b) {
        check!(is_item(a, kind, bits));
        check!(is_item(b, kind, bits));
        cover!(kind == 4);
    } else {
        cover!(kind == 6);
    }
});
