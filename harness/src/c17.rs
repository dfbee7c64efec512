//! C17: everything puts its values where its name says, and its description if asked for.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::instruments::polled::*;
use metrix::instruments::switches::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::Instant;

/// the same entries in any order
fn same(a: &Snapshot, b: &Snapshot) -> bool {
    if a.items.len() != b.items.len() {
        return false;
    }
    let mut used = vec![false; b.items.len()];
    for (n, v) in &a.items {
        let mut hit = false;
        for (i, (m, w)) in b.items.iter().enumerate() {
            if !hit && !used[i] && n == m {
                let eq = match (v, w) {
                    (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) => same(x, y),
                    _ => v == w,
                };
                if eq {
                    used[i] = true;
                    hit = true;
                }
            }
        }
        if !hit {
            return false;
        }
    }
    true
}
/// puts what belongs to something with or without a name into a level or its own
fn level(into: &mut Snapshot, name: Option<&str>, fill: impl FnOnce(&mut Snapshot)) {
    match name {
        Some(n) => {
            let mut s = Snapshot::default();
            fill(&mut s);
            into.push(n, s);
        }
        None => fill(into),
    }
}
fn describe(into: &mut Snapshot, t: &str, d: &str, title: Option<&str>, text: Option<&str>) {
    if let (Some(x), None) = (title, item(into, t)) {
        into.push(t, x);
    }
    if let (Some(x), None) = (text, item(into, d)) {
        into.push(d, x);
    }
}
fn opt(s: &'static str) -> Option<&'static str> {
    if coin() {
        Some(s)
    } else {
        None
    }
}

// Mounts, processors, cockpits and panels: a named one has a level of its own, one without a name
// adds to the level it is in; the outermost description on a level survives.
//@ bounds=mount_>_processor_>_cockpit_>_panel_with_a_value_on_each,_all_named_or_not,_described_or_not cost=3
harness!(c17_levels, {
    T::new(1000, 0).go();
    let descriptive = coin();
    let (n1, n2, n3, n4) = (opt("m"), opt("p"), opt("c"), opt("x"));
    let (t3, d3, t4, d4) = if descriptive {
        (opt("cockpit title"), opt("cockpit text"), opt("panel title"), opt("panel text"))
    } else {
        (Some("t"), Some("d"), Some("t"), Some("d"))
    };
    let mut panel = Panel::accept_all();
    panel.add_snapshooter(Put("in_panel", 4));
    panel.add_panel(Panel::accept_all_named("sub"));
    let mut cockpit = Cockpit::<u8>::without_name();
    cockpit.add_snapshooter(Put("in_cockpit", 3));
    let (_tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    p.add_snapshooter(Put("in_processor", 2));
    let mut m = ProcessorMount::default();
    m.add_snapshooter(Put("in_mount", 1));
    n1.map(|n| m.set_name(n));
    n2.map(|n| p.set_name(n));
    n3.map(|n| cockpit.set_name(n));
    n4.map(|n| panel.set_name(n));
    t3.map(|t| cockpit.set_title(t));
    d3.map(|t| cockpit.set_description(t));
    t4.map(|t| panel.set_title(t));
    d4.map(|t| panel.set_description(t));
    cockpit.add_panel(panel);
    p.add_cockpit(cockpit);
    m.add_processor(p);
    let got = if descriptive { snap_d(&m) } else { snap(&m) };
    let mut want = Snapshot::default();
    level(&mut want, n1, |s| {
        level(s, n2, |s| {
            level(s, n3, |s| {
                if descriptive {
                    describe(s, "_title", "_description", t3, d3);
                }
                level(s, n4, |s| {
                    if descriptive {
                        describe(s, "_title", "_description", t4, d4);
                    }
                    s.push("in_panel", 4u8);
                    s.push("sub", Snapshot::default());
                });
                s.push("in_cockpit", 3u8);
            });
            s.push("in_processor", 2u8);
        });
        s.push("in_mount", 1u8);
    });
    check!(same(&got, &want));
    cover!(descriptive && n1.is_some() && n4.is_none() && t3.is_none() && t4.is_some());
    cover!(!descriptive && n1.is_none());
});
// Descriptions that are already there are kept.
//@ bounds=title_and_description_there_or_not,_among_similar_names_or_not,_of_cockpit_and_panel,_with_title_or_description_or_both,_asked_for_or_not
harness!(c17_kept, {
    T::new(1000, 0).go();
    let mut s = Snapshot::default();
    let (t, d) = (opt("old title"), opt("old text"));
    let similar = coin();
    if similar {
        for n in ["_title_i", "_title_", "x_title", "_description_i", "_descriptio", "title"] {
            s.push(n, "other");
        }
    }
    describe(&mut s, "_title", "_description", t, d);
    if similar {
        for n in ["_titl", "_Title", "_descriptions", "description", ""] {
            s.push(n, "other");
        }
    }
    let before = s.items.len();
    let (nt, nd) = (opt("new title"), opt("new text"));
    let descriptive = coin();
    match pick(2) {
        0 => {
            let mut c = Cockpit::<u8>::without_name();
            nt.map(|t| c.set_title(t));
            nd.map(|t| c.set_description(t));
            c.put_snapshot(&mut s, descriptive);
        }
        _ => {
            let mut c = Panel::<u8>::accept_all();
            nt.map(|t| c.set_title(t));
            nd.map(|t| c.set_description(t));
            c.put_snapshot(&mut s, descriptive);
        }
    }
    let (nt, nd) = (nt.filter(|_| descriptive), nd.filter(|_| descriptive));
    check!(s.items.len() == before + (t.is_none() && nt.is_some()) as usize + (d.is_none() && nd.is_some()) as usize);
    for (n, want) in [("_title", t.or(nt)), ("_description", d.or(nd))] {
        check!(entries(&s, n) == want.is_some() as usize);
        if let Some(w) = want {
            check!(s.find(n).opt() == Some(&ItemKind::Text(w.to_string())));
        }
    }
    cover!(t.is_some() && d.is_none() && nd.is_some() && similar);
});

fn instrument<I: PutsSnapshot>(i: &I, values: usize, own_level: bool, title: Option<&str>, text: Option<&str>) {
    let mut s = Snapshot::default();
    let descriptive = coin();
    // what was on the level before: the same, or something with a similar name
    let (old_t, old_d) = (opt("old title"), opt("old text"));
    let names = ["_title_i", "_title", "_title_", "_title_ii", "_description_i", "_description", "_description_i_", "x_description_i"];
    for (k, n) in names.iter().enumerate() {
        match k {
            0 => {
                old_t.map(|t| s.push(*n, t));
            }
            4 => {
                old_d.map(|t| s.push(*n, t));
            }
            _ => s.push(*n, "other"),
        }
    }
    let mut n = s.items.len() + values;
    i.put_snapshot(&mut s, descriptive);
    let mut want_t = old_t;
    let mut want_d = old_d;
    if descriptive {
        n += (title.is_some() && old_t.is_none()) as usize + (text.is_some() && old_d.is_none()) as usize;
        want_t = want_t.or(title);
        want_d = want_d.or(text);
    }
    check!(s.items.len() == n);
    check!(entries(&s, "_title_i") == want_t.is_some() as usize);
    check!(entries(&s, "_description_i") == want_d.is_some() as usize);
    if let Some(t) = want_t {
        check!(s.find("_title_i").opt() == Some(&ItemKind::Text(t.to_string())));
    }
    if let Some(t) = want_d {
        check!(s.find("_description_i").opt() == Some(&ItemKind::Text(t.to_string())));
    }
    if values > 0 {
        check!(entries(&s, "i") == 1);
        check!(sub(&s, "i").is_some() == own_level);
    }
    cover!(descriptive && title.is_some() && text.is_none());
}
// Every instrument puts its value under its name and its description next to it.
//@ bounds=14_kinds_of_instruments,_described_or_not shared=1
harness!(c17_instruments, {
    T::new(1000, 0).go();
    let (t, d) = (opt("title"), opt("text"));
    macro_rules! go {
        ($i:expr, $n:expr, $level:expr) => {{
            let mut i = $i;
            t.map(|t| i.set_title(t));
            d.map(|t| i.set_description(t));
            instrument(&i, $n, $level, t, d);
        }};
    }
    let val = |i: &mut dyn Updates| {
        i.update(&Update::ObservationWithValue(1.into(), Instant::now()));
    };
    match pick(14) {
        0 => go!(Counter::new("i"), 1, false),
        1 => {
            let mut g = Gauge::new("i");
            val(&mut g);
            go!(g, 1, false)
        }
        2 => {
            let mut g = Gauge::new("i").group_values(true);
            val(&mut g);
            go!(g, 1, true)
        }
        3 => go!(Meter::new("i"), 1, true),
        4 => go!(Histogram::new("i"), 1, true),
        5 => go!(ValueMeter::new("i"), 1, true),
        6 => {
            let mut f = Flag::new("i");
            val(&mut f);
            go!(f, 1, false)
        }
        7 => go!(StaircaseTimer::new("i"), 1, false),
        8 => go!(OccurrenceIndicator::new("i"), 1, false),
        9 => go!(NonOccurrenceIndicator::new("i"), 1, false),
        10 => {
            let mut f = DataDisplay::new("i");
            val(&mut f);
            go!(f, 1, false)
        }
        11 => {
            let mut f = LastOccurrenceTracker::new("i");
            val(&mut f);
            go!(f, 1, false)
        }
        12 => go!(ConstantValue::new("i", true), 1, false),
        _ => go!(PollingInstrument::new_with_defaults("i", Put("i", 1)), 1, false),
    }
});
// Polling instruments put what they poll into a group if told to, constant values what they are
// given; polling happens for every snapshot.
//@ bounds=any_64_bit_value,_2_snapshots
harness!(c17_polled, {
    struct Up(std::sync::atomic::AtomicU64);
    impl PutsSnapshot for Up {
        fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
            let v = self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            into.push("v", v);
            into.push("d", descriptive);
        }
    }
    let v = u64v();
    let mut p = PollingInstrument::new_with_defaults("first", Up(std::sync::atomic::AtomicU64::new(v)));
    let group = coin();
    p.set_create_group_with_name(group);
    check!(p.create_group_with_name() == group);
    p.set_name("grp");
    check!(p.get_name() == "grp");
    for i in 0..2u64 {
        let descriptive = coin();
        let s = if descriptive { snap_d(&p) } else { snap(&p) };
        let at = if group { sub(&s, "grp").unwrap() } else { &s };
        check!(uint(at, "v") == Some(v.wrapping_add(i)));
        check!(boolean(at, "d") == Some(descriptive));
        check!(at.items.len() == 2);
        check!(s.items.len() == if group { 1 } else { 2 });
    }
    let mut c = ConstantValue::new("c", v as i64);
    check!(int(&snap(&c), "c") == Some(v as i64));
    c.set_name("e");
    check!(c.get_name() == "e");
    check!(int(&snap(&c), "e") == Some(v as i64));
    check!(snap(&c).items.len() == 1);
    cover!(group);
});
// Names can be changed, and what is shown changes with them.
//@ bounds=all_kinds_of_named_things
harness!(c17_renamed, {
    T::new(1000, 0).go();
    macro_rules! go {
        ($i:expr) => {{
            let mut i = $i;
            i.set_name("new");
            let s = snap(&i);
            check!(entries(&s, "new") == 1);
            check!(s.items.len() == 1);
        }};
    }
    let k = pick(13);
    match k {
        0 => go!(Counter::new("old")),
        1 => go!(Meter::new("old")),
        2 => go!(Histogram::new("old")),
        3 => go!(ValueMeter::new("old")),
        4 => {
            let mut f = Flag::new("old");
            f.update(&Update::ObservationWithValue(true.into(), Instant::now()));
            go!(f)
        }
        5 => go!(StaircaseTimer::new("old")),
        6 => go!(OccurrenceIndicator::new("old")),
        7 => go!(NonOccurrenceIndicator::new("old")),
        8 => go!(Panel::<u8>::accept_all_named("old")),
        9 => go!(Cockpit::<u8>::new("old")),
        10 => go!(ProcessorMount::new("old")),
        11 => go!(TelemetryProcessor::<u8>::new_pair("old").1),
        _ => {
            let mut g = Gauge::new("old");
            g.update(&Update::ObservationWithValue(1.into(), Instant::now()));
            go!(g)
        }
    }
    cover!(k == 12);
});
