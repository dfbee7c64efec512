//! C14: flags, data displays and last-occurrence trackers show what was observed last.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::{Duration, Instant};

fn flags(n: usize) {
    let t = T::any(1 << 30).instant();
    let mut f = Flag::new("f");
    let mut want = None;
    if coin() {
        let b = coin();
        f = f.state(b);
        want = Some(b);
    }
    let mut i = 0;
    while i < n {
        i += 1;
        let u = update_of(any_shape(), t);
        let mut hit = false;
        if let Update::ObservationWithValue(v, _) = &u {
            let x = match *v {
                ObservedValue::Bool(b) => Some(b as u64),
                ObservedValue::SignedInteger(x) => Some(x as u64),
                ObservedValue::UnsignedInteger(x) => Some(x),
                _ => None,
            };
            if let Some(x) = x {
                // for other numbers the behaviour is undefined
                assume(x < 2);
                want = Some(x == 1);
                hit = true;
            }
        }
        check!(f.update(&u) == hit as usize);
        check!(f.get_state() == want);
    }
    let s = snap(&f);
    check!(boolean(&s, "f") == want);
    check!(s.items.len() == want.is_some() as usize);
    cover!(want.is_none());
    cover!(want == Some(true));
}
// A flag follows booleans and integers (zero is false, one is true) and ignores everything else.
//@ bounds=4_updates_of_any_shape,_with_or_without_initial_state shared=flags
harness!(c14_flag, {
    flags(4)
});
//@ bounds=5_updates_of_any_shape,_with_or_without_initial_state tier=thorough shared=flags shards=4
harness!(c14_flag_more, {
    flags(5)
});

fn same(i: Option<&ItemKind>, u: u64) -> bool {
    matches!(i, Some(ItemKind::UInt(x)) if *x == u)
}

// A data display shows the last plain value; if so configured, for the given time only, and the
// reset value after that and before the first.
//@ bounds=0_to_2_values_at_any_times_within_2^40_s,_any_reset_time,_with_and_without_reset_time_and_value
harness!(c14_display, {
    let mut t = T::any(1 << 30);
    t.go();
    let reset_after = if coin() { Some(any_duration()) } else { None };
    let reset_value = if coin() { Some(u64v()) } else { None };
    let mut d = DataDisplay::new("d");
    if let Some(r) = reset_after {
        d.set_reset_after(r);
    }
    if let Some(r) = reset_value {
        d.set_reset_value(r);
    }
    check!(d.get_reset_after() == reset_after);
    let n = pick(3);
    let mut last = None;
    let mut i = 0;
    while i < n {
        i += 1;
        t = later(t, 1 << 40);
        t.go();
        let v = u64v();
        let at = stamp(t);
        check!(d.update(&Update::ObservationWithValue(v.into(), at)) == 1);
        last = Some((t, v));
    }
    t = later(t, 1 << 40);
    t.go();
    let s = snap(&d);
    let want = match (last, reset_after) {
        (Some((at, v)), Some(r)) => {
            if dur_le(t.since(at), r) {
                Some(v)
            } else {
                reset_value
            }
        }
        (Some((_, v)), None) => Some(v),
        (None, _) => reset_value,
    };
    match want {
        Some(v) => {
            check!(same(item(&s, "d"), v));
            check!(same(d.value().as_ref(), v));
        }
        None => {
            check!(s.items.is_empty());
            check!(d.value().is_none());
        }
    }
    cover!(n == 2 && want.is_none());
    cover!(n == 2 && want.is_some() && reset_after.is_some());
});
// What has no plain value does not change what is displayed.
//@ bounds=2_updates_of_any_shape
harness!(c14_display_shapes, {
    T::new(5000, 0).go();
    let t = Instant::now();
    let mut d = DataDisplay::new("d").reset_after(Duration::from_secs(1));
    let mut want: Option<ItemKind> = None;
    let mut i = 0;
    while i < 2 {
        i += 1;
        let u = update_of(any_shape(), t);
        let mut hit = true;
        match &u {
            Update::ObservationWithValue(ObservedValue::Bool(x), _) => want = Some(ItemKind::Boolean(*x)),
            Update::ObservationWithValue(ObservedValue::SignedInteger(x), _) => want = Some(ItemKind::Int(*x)),
            Update::ObservationWithValue(ObservedValue::UnsignedInteger(x), _) => want = Some(ItemKind::UInt(*x)),
            Update::ObservationWithValue(ObservedValue::Float(x), _) => {
                assume(x == x);
                want = Some(ItemKind::Float(*x))
            }
            _ => hit = false,
        }
        check!(d.update(&u) == hit as usize);
    }
    check!(d.value() == want);
    cover!(want.is_none());
    cover!(want.is_some());
});

// Whole seconds since the last occurrence; nothing, or 0 if so configured, before the first.
//@ bounds=0_to_2_occurrences_at_any_times_within_2^40_s
harness!(c14_last_occurrence, {
    let mut t = T::any(1 << 30);
    t.go();
    let zero = coin();
    let mut l = LastOccurrenceTracker::new("l").make_none_zero(zero);
    check!(l.get_make_none_zero() == zero);
    let n = pick(3);
    let mut last = None;
    let mut i = 0;
    while i < n {
        i += 1;
        t = later(t, 1 << 40);
        t.go();
        let at = stamp(t);
        check!(l.update(&update_of([Shape::One, Shape::Many, Shape::Float][pick(3)], at)) == 1);
        last = Some(t);
    }
    t = later(t, 1 << 40);
    t.go();
    let s = snap(&l);
    match last {
        Some(at) => check!(whole(&s, "l") == Some(t.since(at).0 as i128)),
        None if zero => check!(whole(&s, "l") == Some(0)),
        None => check!(s.items.is_empty()),
    }
    cover!(n == 2);
    cover!(n == 0 && zero);
    cover!(n == 0 && !zero);
});
