//! C07: observed durations are shown in the display time unit of the instrument.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::*;

/// `time` in `from` units, in whole `to` units; the biggest shown value if it is too big
fn scaled(time: u64, from: TimeUnit, to: TimeUnit, most: u64) -> u64 {
    let (a, b) = (nanos_per(from), nanos_per(to));
    if a <= b {
        let v = time / (b / a);
        if v > most {
            most
        } else {
            v
        }
    } else {
        let f = a / b;
        if time > most / f {
            most
        } else {
            time * f
        }
    }
}
fn update(time: u64, unit: TimeUnit) -> Update {
    Update::ObservationWithValue(ObservedValue::Duration(time, unit), std::time::Instant::now())
}
const MOST: u64 = i64::MAX as u64;

//@ bounds=any_duration_of_any_unit_shown_in_any_unit
harness!(c07_gauge, {
    T::new(2000, 0).go();
    let (from, to) = (any_unit(), any_unit());
    let time = u64v();
    let mut g = Gauge::new("g").display_time_unit(to);
    let n = g.update(&update(time, from));
    let want = scaled(time, from, to, MOST);
    check!(n == 1);
    check!(g.get() == Some(want as i64));
    check!(int(&snap(&g), "g") == Some(want as i64));
    cover!(want == MOST);
    cover!(want != MOST && want > 0);
});
// Microseconds unless told otherwise.
//@ bounds=any_duration_of_any_unit
harness!(c07_default_unit, {
    T::new(2000, 0).go();
    let from = any_unit();
    let time = u64v();
    assume(time < 1 << 40);
    let want = scaled(time, from, TimeUnit::Microseconds, MOST);
    let mut g = Gauge::new("g");
    g.update(&update(time, from));
    check!(g.get() == Some(want as i64));
    let mut h = Histogram::new("h");
    h.update(&update(time, from));
    check!(int(sub(&snap(&h), "h").unwrap(), "max") == Some(want as i64));
    let mut m = ValueMeter::new("m");
    m.update(&update(time, from));
    check!(uint(sub(&snap(&m), "m").unwrap(), "count") == Some(want));
    cover!(want > 0);
});
//@ bounds=any_duration_of_any_unit_shown_in_any_unit
harness!(c07_histogram, {
    T::new(2000, 0).go();
    let (from, to) = (any_unit(), any_unit());
    let time = u64v();
    let mut h = Histogram::new("h").display_time_unit(to);
    let n = h.update(&update(time, from));
    let want = scaled(time, from, to, MOST) as i64;
    check!(n == 1);
    let s = snap(&h);
    let s = sub(&s, "h").unwrap();
    check!(uint(s, "count") == Some(1));
    check!(int(s, "min") == Some(want));
    check!(int(s, "max") == Some(want));
    cover!(want == i64::MAX);
    cover!(want < i64::MAX);
});
//@ bounds=any_duration_of_any_unit_shown_in_any_unit
harness!(c07_value_meter, {
    T::new(2000, 0).go();
    let (from, to) = (any_unit(), any_unit());
    let time = u64v();
    let mut m = ValueMeter::new("m").display_time_unit(to);
    let n = m.update(&update(time, from));
    let want = scaled(time, from, to, MOST);
    check!(n == 1);
    check!(uint(sub(&snap(&m), "m").unwrap(), "count") == Some(want));
    cover!(want == MOST);
    cover!(want < MOST);
});
