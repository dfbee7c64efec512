//! Things the harnesses attach to metrix: recording handlers, ready-made instruments, reading
//! values out of snapshots.
#![allow(dead_code)]
use crate::sx::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// what a handler saw of one observation
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Seen {
    pub by: u8,
    pub label: u8,
    pub kind: u8,
    pub bits: u64,
    pub at: Instant,
}
pub type Log = Arc<Mutex<Vec<Seen>>>;
pub fn log() -> Log {
    Arc::new(Mutex::new(Vec::new()))
}
pub fn take(l: &Log) -> Vec<Seen> {
    std::mem::replace(&mut *l.lock().unwrap(), Vec::new())
}
fn unit_no(u: TimeUnit) -> u8 {
    match u {
        TimeUnit::Nanoseconds => 0,
        TimeUnit::Microseconds => 1,
        TimeUnit::Milliseconds => 2,
        TimeUnit::Seconds => 3,
    }
}
/// (kind, payload) of a value
pub fn value_bits(v: &ObservedValue) -> (u8, u64) {
    match *v {
        ObservedValue::SignedInteger(x) => (2, x as u64),
        ObservedValue::UnsignedInteger(x) => (3, x),
        ObservedValue::Float(x) => (4, x.to_bits()),
        ObservedValue::Bool(x) => (5, x as u64),
        ObservedValue::Duration(x, u) => (10 + unit_no(u), x),
        ObservedValue::ChangedBy(x) => (6, x as u64),
    }
}
pub fn seen(by: u8, o: &Observation<u8>) -> Seen {
    let (kind, bits) = match o {
        Observation::Observed { count, .. } => (0, *count),
        Observation::ObservedOne { .. } => (1, 0),
        Observation::ObservedOneValue { value, .. } => value_bits(value),
    };
    Seen {
        by,
        label: *o.label(),
        kind,
        bits,
        at: o.timestamp(),
    }
}
pub fn seen_update(by: u8, label: u8, u: &Update) -> Seen {
    let (kind, bits, at) = match u {
        Update::Observations(n, t) => (0, *n, *t),
        Update::Observation(t) => (1, 0, *t),
        Update::ObservationWithValue(v, t) => {
            let (k, b) = value_bits(v);
            (k, b, *t)
        }
    };
    Seen {
        by,
        label,
        kind,
        bits,
        at,
    }
}

/// a handler that records what it is handed, claims to have updated `ret` instruments and shows up
/// in snapshots under `name`
pub struct Rec {
    pub id: u8,
    pub ret: usize,
    pub log: Log,
    pub name: &'static str,
}
impl Rec {
    pub fn new(id: u8, log: &Log) -> Rec {
        Rec {
            id,
            ret: 1,
            log: log.clone(),
            name: "",
        }
    }
    pub fn ret(mut self, n: usize) -> Rec {
        self.ret = n;
        self
    }
    pub fn named(mut self, n: &'static str) -> Rec {
        self.name = n;
        self
    }
}
impl PutsSnapshot for Rec {
    fn put_snapshot(&self, into: &mut Snapshot, _descriptive: bool) {
        if !self.name.is_empty() {
            into.push(self.name.to_string(), ItemKind::UInt(self.id as u64));
        }
    }
}
impl HandlesObservations for Rec {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        self.log.lock().unwrap().push(seen(self.id, o));
        self.ret
    }
}
/// the same as an instrument
pub struct RecI {
    pub id: u8,
    pub ret: usize,
    pub log: Log,
    pub name: &'static str,
}
impl RecI {
    pub fn new(id: u8, ret: usize, log: &Log) -> RecI {
        RecI {
            id,
            ret,
            log: log.clone(),
            name: "",
        }
    }
}
impl Updates for RecI {
    fn update(&mut self, with: &Update) -> usize {
        self.log.lock().unwrap().push(seen_update(self.id, 0, with));
        self.ret
    }
}
impl PutsSnapshot for RecI {
    fn put_snapshot(&self, into: &mut Snapshot, _descriptive: bool) {
        if !self.name.is_empty() {
            into.push(self.name.to_string(), ItemKind::UInt(self.id as u64));
        }
    }
}
impl Instrument for RecI {}

/// a snapshooter writing one value
pub struct Put(pub &'static str, pub u64);
impl PutsSnapshot for Put {
    fn put_snapshot(&self, into: &mut Snapshot, _descriptive: bool) {
        into.push(self.0.to_string(), ItemKind::UInt(self.1));
    }
}

/// the snapshot something puts
pub fn snap<P: PutsSnapshot>(p: &P) -> Snapshot {
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    s
}
pub fn snap_d<P: PutsSnapshot>(p: &P) -> Snapshot {
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, true);
    s
}
/// how many entries of this name there are on this level
pub fn entries(s: &Snapshot, name: &str) -> usize {
    s.items.iter().filter(|(n, _)| n == name).count()
}
pub fn item<'a>(s: &'a Snapshot, name: &str) -> Option<&'a ItemKind> {
    s.items.iter().find(|(n, _)| n == name).map(|x| &x.1)
}
pub fn sub<'a>(s: &'a Snapshot, name: &str) -> Option<&'a Snapshot> {
    match item(s, name) {
        Some(ItemKind::Snapshot(s)) => Some(s),
        _ => None,
    }
}
pub fn uint(s: &Snapshot, name: &str) -> Option<u64> {
    match item(s, name) {
        Some(ItemKind::UInt(v)) => Some(*v),
        _ => None,
    }
}
pub fn int(s: &Snapshot, name: &str) -> Option<i64> {
    match item(s, name) {
        Some(ItemKind::Int(v)) => Some(*v),
        _ => None,
    }
}
pub fn float(s: &Snapshot, name: &str) -> Option<f64> {
    match item(s, name) {
        Some(ItemKind::Float(v)) => Some(*v),
        _ => None,
    }
}
pub fn boolean(s: &Snapshot, name: &str) -> Option<bool> {
    match item(s, name) {
        Some(ItemKind::Boolean(v)) => Some(*v),
        _ => None,
    }
}
/// integer value of an item, whichever integer kind it has
pub fn whole(s: &Snapshot, name: &str) -> Option<i128> {
    match item(s, name) {
        Some(ItemKind::Int(v)) => Some(*v as i128),
        Some(ItemKind::UInt(v)) => Some(*v as i128),
        _ => None,
    }
}
/// a name of one arbitrary lower-case letter
pub fn any_name() -> (u8, String) {
    let c = u8v();
    assume((c >= b'a') & (c <= b'z'));
    (c, name_of(c))
}
pub fn name_of(c: u8) -> String {
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
/// an update with arbitrary contents
pub fn update_of(shape: Shape, t: Instant) -> Update {
    match obs_of(shape, 0u8, t) {
        Observation::Observed {
            count, timestamp, ..
        } => Update::Observations(count, timestamp),
        Observation::ObservedOne { timestamp, .. } => Update::Observation(timestamp),
        Observation::ObservedOneValue {
            value, timestamp, ..
        } => Update::ObservationWithValue(value, timestamp),
    }
}
