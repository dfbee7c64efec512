//! C03: administrative messages take effect in order, by name, between observations.
use crate::kit::*;
use crate::sx::*;
use metrix::cockpit::Cockpit;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::*;

struct MC {
    name: Option<u8>,
    id: u8,
    panels: Vec<(Option<u8>, u8)>,
}
fn expected(model: &[MC], hs: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for c in model {
        v.push(c.id);
        for p in &c.panels {
            v.push(p.1);
        }
    }
    v.extend_from_slice(hs);
    v
}
/// names that are similar
fn similar() -> (u8, String) {
    let k = pick(6);
    ([b'c', b'p', 1, 2, 3, 4][k], ["c", "p", "cp", "pc", "C", ""][k].to_string())
}
fn run(steps: usize, kinds: u8, name: fn() -> (u8, String)) {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    let mut model: Vec<MC> = Vec::new();
    let mut hs: Vec<u8> = Vec::new();
    let mut next = 0u8;
    let mut want: Vec<Vec<u8>> = Vec::new();
    // a cockpit `c` with a panel `p` to begin with
    let mut c = Cockpit::new("c");
    c.add_handler(Rec::new(100, &l));
    let mut p = Panel::named(AcceptAllLabels, "p");
    p.add_handler(Rec::new(101, &l));
    c.add_panel(p);
    tx.add_cockpit(c);
    model.push(MC {
        name: Some(b'c'),
        id: 100,
        panels: vec![(Some(b'p'), 101)],
    });
    for _ in 0..steps {
        next += 1;
        let id = next;
        match pick(kinds) {
            0 => {
                let (n, s) = name();
                let mut c = Cockpit::new(s);
                c.add_handler(Rec::new(id, &l));
                tx.add_cockpit(c);
                let mut dup = false;
                for c in &model {
                    if c.name == Some(n) {
                        dup = true;
                    }
                }
                if !dup {
                    model.push(MC {
                        name: Some(n),
                        id,
                        panels: Vec::new(),
                    });
                }
            }
            1 => {
                let (n, s) = name();
                tx.remove_cockpit(s);
                model.retain(|c| c.name != Some(n));
            }
            2 => {
                let (n, s) = name();
                let (pn, ps) = name();
                let mut p = Panel::named(AcceptAllLabels, ps);
                p.add_handler(Rec::new(id, &l));
                tx.add_panel_to_cockpit(s, p);
                for c in model.iter_mut() {
                    if c.name == Some(n) {
                        let mut dup = false;
                        for q in &c.panels {
                            if q.0 == Some(pn) {
                                dup = true;
                            }
                        }
                        if !dup {
                            c.panels.push((Some(pn), id));
                        }
                    }
                }
            }
            3 => {
                let (n, s) = name();
                let (pn, ps) = name();
                tx.remove_panel_from_cockpit(s, ps);
                for c in model.iter_mut() {
                    if c.name == Some(n) {
                        c.panels.retain(|q| q.0 != Some(pn));
                    }
                }
            }
            4 => {
                tx.observed_one_now(0);
                want.push(expected(&model, &hs));
            }
            5 => {
                let mut c = Cockpit::without_name();
                c.add_handler(Rec::new(id, &l));
                tx.add_cockpit(c);
                model.push(MC {
                    name: None,
                    id,
                    panels: Vec::new(),
                });
            }
            6 => {
                let (n, s) = name();
                let mut p = Panel::accept_all();
                p.add_handler(Rec::new(id, &l));
                tx.add_panel_to_cockpit(s, p);
                for c in model.iter_mut() {
                    if c.name == Some(n) {
                        c.panels.push((None, id));
                    }
                }
            }
            _ => {
                tx.add_handler(Rec::new(id, &l));
                hs.push(id);
            }
        }
    }
    tx.observed_one_now(0);
    want.push(expected(&model, &hs));
    let out = rx.process(100, ProcessingStrategy::ProcessAll);
    check!(out.processed == steps + 2);
    check!(out.dropped == 0);
    check!(out.observations_enqueued == 0);
    let got = take(&l);
    let total: usize = want.iter().map(|w| w.len()).sum();
    check!(got.len() == total);
    check!(out.instruments_updated == total);
    let mut k = 0;
    for w in &want {
        // within one observation each part is served once; in which order is not promised
        let seg: Vec<u8> = got[k..k + w.len()].iter().map(|s| s.by).collect();
        k += w.len();
        for id in w {
            check!(seg.iter().filter(|x| *x == id).count() == 1);
        }
    }
    let cs = rx.get_cockpits();
    check!(cs.len() == model.len());
    for (c, m) in cs.iter().zip(&model) {
        check!(c.get_panels().len() == m.panels.len());
        check!(c.get_name().is_some() == m.name.is_some());
    }
    check!(rx.get_handlers().len() == hs.len());
    observe(total as u64);
}

// Any 2 administrative messages or observations with any one-letter names on a processor that has a
// cockpit with a panel.
//@ bounds=2_messages_of_8_kinds,_one-letter_names shards=2
harness!(c03_two, {
    run(2, 8, any_name);
    cover!();
});
// Names are compared as a whole.
//@ bounds=2_messages_of_8_kinds,_6_names_that_begin_or_end_with_others_or_differ_in_case shards=2
harness!(c03_similar, {
    run(2, 8, similar);
    cover!();
});
// Any 3 such messages.
//@ bounds=3_messages_of_8_kinds,_one-letter_names shards=8 cost=9 timeout=500
harness!(c03_three, {
    run(3, 8, any_name);
    cover!();
});
// Any 4 messages that name something (or observe).
//@ bounds=4_messages_of_5_kinds,_one-letter_names shards=5 tier=thorough
harness!(c03_four, {
    run(4, 5, any_name);
    cover!();
});

// Administrative messages are obeyed under every processing strategy.
//@ bounds=one_of_each_kind,_drop_strategies_with_any_max_age
harness!(c03_never_dropped, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    let strategy = match pick(3) {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::DropOlderThan {
            max_age: any_duration_below(1000),
            drop_deltas: coin(),
        },
    };
    let mut c = Cockpit::new("c");
    let keep = coin();
    c.add_handler(Rec::new(1, &l));
    tx.add_cockpit(c);
    let mut p = Panel::accept_all_named("p");
    p.add_handler(Rec::new(2, &l));
    tx.add_panel_to_cockpit("c", p);
    tx.add_handler(Rec::new(3, &l));
    if !keep {
        tx.remove_panel_from_cockpit("c", "p");
    }
    let out = rx.process(100, strategy);
    check!(out.processed == 3 + !keep as usize);
    check!(out.dropped == 0);
    tx.observed_one_now(9);
    rx.process(1, ProcessingStrategy::ProcessAll);
    check!(take(&l).len() == 2 + keep as usize);
    tx.remove_cockpit("c");
    let out = rx.process(100, strategy);
    check!((out.processed == 1) & (out.dropped == 0));
    tx.observed_one_now(9);
    rx.process(1, ProcessingStrategy::ProcessAll);
    check!(take(&l).len() == 1);
    cover!(keep);
    cover!(!keep);
});

// Administration by one thread while another one observes and a third one processes: what a thread
// sends after it has added something arrives there.
//@ bounds=1_thread_that_adds_a_cockpit_and_a_panel_and_observes_after_each,_one_that_observes,_2_preemptions_at_atomic_operations threads=1 noreplay=1 cost=5
harness!(c03_threads, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    let at = std::time::Instant::now();
    let t2 = tx.clone();
    let (l1, l2) = (l.clone(), l.clone());
    let a = std::thread::spawn(move || {
        tx.add_cockpit(Cockpit::new("c").handler(Rec::new(1, &l1)));
        tx.observed_one(1, at);
        tx.add_panel_to_cockpit("c", Panel::accept_all_named("p").handler(Rec::new(2, &l2)));
        tx.observed_one(2, at);
        tx.remove_cockpit("c");
        tx.observed_one(3, at);
    });
    let b = std::thread::spawn(move || {
        t2.observed_one(9, at);
    });
    unsafe { sx_preempt(2) };
    let mut n = rx.process(3, ProcessingStrategy::ProcessAll).processed;
    a.join().unwrap();
    b.join().unwrap();
    unsafe { sx_preempt(0) };
    n += rx.process(100, ProcessingStrategy::ProcessAll).processed;
    check!(n == 7);
    let got = take(&l);
    let count = |by: u8, label: u8| got.iter().filter(|s| s.by == by && s.label == label).count();
    check!(count(1, 1) == 1);
    check!(count(2, 1) == 0);
    check!(count(1, 2) == 1);
    check!(count(2, 2) == 1);
    check!(count(1, 3) + count(2, 3) == 0);
    check!(count(2, 9) <= count(1, 9) && count(1, 9) <= 1);
    check!(got.len() == 3 + count(1, 9) + count(2, 9));
    cover!(count(1, 9) == 0);
    cover!(count(2, 9) == 1);
    cover!(count(1, 9) == 1 && count(2, 9) == 0);
});

struct MB {
    name: Option<String>,
    id: u8,
    panels: Vec<(Option<String>, u8)>,
}
// Any number of cockpits and panels: only those with the name are affected, whichever they are.
//@ bounds=8_cockpits_with_4_panels_each,_some_without_a_name,_2_messages_of_5_kinds_that_name_any_of_them_or_none cost=3
harness!(c03_many, {
    T::new(5000, 0).go();
    let l = log();
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    let mut model: Vec<MB> = Vec::new();
    let mut next = 0u8;
    let mut rec = || {
        next += 1;
        (next, Rec::new(next, &l))
    };
    for c in 0..8usize {
        let named = c != 2 && c != 5;
        let mut k = if named { Cockpit::new(format!("cockpit-{}", c)) } else { Cockpit::without_name() };
        let (id, h) = rec();
        k.add_handler(h);
        let mut panels = Vec::new();
        for p in 0..4usize {
            let mut q = if p == 2 {
                Panel::accept_all()
            } else {
                Panel::named(AcceptAllLabels, format!("panel-{}", p))
            };
            let (id, h) = rec();
            q.add_handler(h);
            k.add_panel(q);
            panels.push((if p == 2 { None } else { Some(format!("panel-{}", p)) }, id));
        }
        tx.add_cockpit(k);
        model.push(MB {
            name: if named { Some(format!("cockpit-{}", c)) } else { None },
            id,
            panels,
        });
    }
    let mut last = 0;
    for _ in 0..2 {
        let kind = pick(5);
        // cockpits 2, 5 and 8 and panels 2 and 4 are not there
        let c = format!("cockpit-{}", [0usize, 1, 2, 6, 7, 8][pick(6)]);
        let p = format!("panel-{}", if kind == 0 || kind == 3 { 0 } else { [0usize, 2, 3, 4][pick(4)] });
        match kind {
            0 => {
                tx.remove_cockpit(c.clone());
                model.retain(|m| m.name.as_ref() != Some(&c));
            }
            1 => {
                tx.remove_panel_from_cockpit(c.clone(), p.clone());
                for m in model.iter_mut() {
                    if m.name.as_ref() == Some(&c) {
                        m.panels.retain(|q| q.0.as_ref() != Some(&p));
                    }
                }
            }
            2 => {
                let mut q = Panel::named(AcceptAllLabels, p.clone());
                let (id, h) = rec();
                q.add_handler(h);
                tx.add_panel_to_cockpit(c.clone(), q);
                for m in model.iter_mut() {
                    if m.name.as_ref() == Some(&c) && !m.panels.iter().any(|q| q.0.as_ref() == Some(&p)) {
                        m.panels.push((Some(p.clone()), id));
                    }
                }
            }
            3 => {
                let mut k = Cockpit::new(c.clone());
                let (id, h) = rec();
                k.add_handler(h);
                tx.add_cockpit(k);
                if !model.iter().any(|m| m.name.as_ref() == Some(&c)) {
                    model.push(MB {
                        name: Some(c),
                        id,
                        panels: Vec::new(),
                    });
                }
            }
            _ => {
                let (id, h) = rec();
                tx.add_handler(h);
                model.push(MB {
                    name: None,
                    id,
                    panels: Vec::new(),
                });
            }
        }
        last = kind;
    }
    tx.observed_one_now(0);
    let out = rx.process(100, ProcessingStrategy::ProcessAll);
    check!(out.processed == 11);
    let mut heard = vec![0u8; 60];
    for s in take(&l) {
        heard[s.by as usize] += 1;
    }
    let mut want = vec![0u8; 60];
    for m in &model {
        want[m.id as usize] = 1;
        for p in &m.panels {
            want[p.1 as usize] = 1;
        }
    }
    check!(heard == want);
    check!(out.instruments_updated == want.iter().filter(|x| **x == 1).count());
    cover!(last == 1);
    cover!(last == 2);
});
