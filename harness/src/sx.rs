//! The harness side of the symbolic executor: nondeterministic inputs, assumptions, assertions,
//! coverage goals, the virtual clock. Under `symx` these are intrinsics; in the native replay
//! binary (src/bin/replay.rs) they pop recorded values.
#![allow(dead_code)]
use metrix::*;
use std::time::{Duration, Instant};

extern "C" {
    pub fn sx_nd(w: u32) -> u64;
    pub fn sx_assume(b: bool);
    pub fn sx_assert(b: bool, id: u32);
    pub fn sx_cover(id: u32);
    pub fn sx_observe(v: u64);
    pub fn sx_set_now(secs: u64, nanos: u64);
    pub fn sx_stamp(secs: u64, nanos: u64);
    pub fn sx_preempt(n: u32);
    pub fn sx_advance(ns: u64);
    pub fn sx_concretize(v: u64) -> u64;
}

#[macro_export]
macro_rules! check {
    ($e:expr) => {
        unsafe { $crate::sx::sx_assert($e, line!()) }
    };
}
#[macro_export]
macro_rules! cover {
    ($e:expr) => {
        if $e {
            unsafe { $crate::sx::sx_cover(line!()) }
        }
    };
    () => {
        unsafe { $crate::sx::sx_cover(line!()) }
    };
}
#[macro_export]
macro_rules! harness {
    ($n:ident, $b:block) => {
        #[no_mangle]
        pub extern "C" fn $n() {
            $b
        }
    };
}

pub fn assume(b: bool) {
    unsafe { sx_assume(b) }
}
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
/// any value of the type
pub fn u64v() -> u64 {
    unsafe { sx_nd(64) }
}
pub fn u32v() -> u32 {
    unsafe { sx_nd(32) as u32 }
}
pub fn u16v() -> u16 {
    unsafe { sx_nd(16) as u16 }
}
pub fn u8v() -> u8 {
    unsafe { sx_nd(8) as u8 }
}
pub fn i64v() -> i64 {
    u64v() as i64
}
pub fn f64v() -> f64 {
    f64::from_bits(u64v())
}
pub fn flag() -> bool {
    unsafe { sx_nd(1) & 1 == 1 }
}
/// symbolic value below n
pub fn below(n: u64) -> u64 {
    let v = u64v();
    assume(v < n);
    v
}
pub fn below8(n: u8) -> u8 {
    let v = u8v();
    assume(v < n);
    v
}
/// one path per value below n
pub fn pick(n: u8) -> usize {
    unsafe { sx_concretize(below8(n) as u64) as usize }
}
/// one path per value
pub fn coin() -> bool {
    pick(2) == 1
}
/// makes a value concrete on this path (one path per feasible value)
pub fn conc(v: u64) -> u64 {
    unsafe { sx_concretize(v) }
}

// ---- time --------------------------------------------------------------------------------
/// sets the clock to `secs`,`nanos` (seconds since an arbitrary origin)
pub fn set_now(secs: u64, nanos: u32) {
    unsafe { sx_set_now(secs, nanos as u64) }
}
/// A point in time of the harness: seconds and nanoseconds, as the clock reports them.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct T {
    pub s: u64,
    pub n: u32,
}
impl T {
    pub fn new(s: u64, n: u32) -> T {
        T { s, n }
    }
    /// any point in time within `span` seconds (symbolic), starting at 1000 s
    pub fn any(span: u64) -> T {
        let s = u64v();
        let n = u32v();
        assume((s >= 1000) & (s < 1000 + span) & (n < 1_000_000_000));
        T { s, n }
    }
    /// makes this the current time
    pub fn go(self) {
        set_now(self.s, self.n)
    }
    /// the Instant of this time (the clock stays where it is)
    pub fn instant(self) -> Instant {
        unsafe { sx_stamp(self.s, self.n as u64) };
        Instant::now()
    }
    pub fn le(self, o: T) -> bool {
        (self.s < o.s) | ((self.s == o.s) & (self.n <= o.n))
    }
    pub fn lt(self, o: T) -> bool {
        (self.s < o.s) | ((self.s == o.s) & (self.n < o.n))
    }
    /// self - earlier, for earlier <= self (no branches)
    pub fn since(self, e: T) -> (u64, u32) {
        let borrow = self.n < e.n;
        let s = self.s.wrapping_sub(e.s).wrapping_sub(borrow as u64);
        let n = self.n.wrapping_add(1_000_000_000 * borrow as u32).wrapping_sub(e.n);
        (s, n)
    }
}
/// an Instant that has nothing to do with the current time `now` (past or future)
pub fn stamp(now: T) -> Instant {
    let i = T::any(1 << 41).instant();
    now.go();
    i
}
/// any time not before `t`, less than `span` seconds later
pub fn later(t: T, span: u64) -> T {
    let s = u64v();
    let n = u32v();
    let r = T { s, n };
    assume((n < 1_000_000_000) & (s >= t.s) & (s.wrapping_sub(t.s) < span) & t.le(r));
    r
}
/// any duration at all
pub fn any_duration() -> Duration {
    let s = u64v();
    let n = u32v();
    assume(n < 1_000_000_000);
    Duration::new(s, n)
}
pub fn any_duration_below(secs: u64) -> Duration {
    let s = u64v();
    let n = u32v();
    assume((n < 1_000_000_000) & (s < secs));
    Duration::new(s, n)
}
/// (s, n) <= d, without branches
pub fn dur_le(a: (u64, u32), d: Duration) -> bool {
    (a.0 < d.as_secs()) | ((a.0 == d.as_secs()) & (a.1 <= d.subsec_nanos()))
}
pub fn dur_lt(a: (u64, u32), d: Duration) -> bool {
    (a.0 < d.as_secs()) | ((a.0 == d.as_secs()) & (a.1 < d.subsec_nanos()))
}

// ---- observations ------------------------------------------------------------------------
/// the shapes an observation can have
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Many,
    One,
    Signed,
    Unsigned,
    Float,
    Bool,
    Dur,
    Delta,
}
pub const SHAPES: [Shape; 8] = [
    Shape::Many,
    Shape::One,
    Shape::Signed,
    Shape::Unsigned,
    Shape::Float,
    Shape::Bool,
    Shape::Dur,
    Shape::Delta,
];
pub const UNITS: [TimeUnit; 4] = [
    TimeUnit::Nanoseconds,
    TimeUnit::Microseconds,
    TimeUnit::Milliseconds,
    TimeUnit::Seconds,
];
pub fn any_unit() -> TimeUnit {
    UNITS[pick(4)]
}
pub fn nanos_per(u: TimeUnit) -> u64 {
    match u {
        TimeUnit::Nanoseconds => 1,
        TimeUnit::Microseconds => 1_000,
        TimeUnit::Milliseconds => 1_000_000,
        TimeUnit::Seconds => 1_000_000_000,
    }
}
pub fn any_shape() -> Shape {
    SHAPES[pick(8)]
}
/// an observation of the given shape with arbitrary contents
pub fn obs_of<L>(shape: Shape, label: L, timestamp: Instant) -> Observation<L> {
    let value = match shape {
        Shape::Many => {
            return Observation::Observed {
                label,
                count: u64v(),
                timestamp,
            }
        }
        Shape::One => return Observation::ObservedOne { label, timestamp },
        Shape::Signed => ObservedValue::SignedInteger(i64v()),
        Shape::Unsigned => ObservedValue::UnsignedInteger(u64v()),
        Shape::Float => ObservedValue::Float(f64v()),
        Shape::Bool => ObservedValue::Bool(flag()),
        Shape::Dur => ObservedValue::Duration(u64v(), any_unit()),
        Shape::Delta => ObservedValue::ChangedBy(i64v()),
    };
    Observation::ObservedOneValue {
        label,
        value,
        timestamp,
    }
}
pub fn any_obs<L>(label: L, timestamp: Instant) -> Observation<L> {
    obs_of(any_shape(), label, timestamp)
}
