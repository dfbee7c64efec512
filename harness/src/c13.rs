//! C13: switches turn on and off with the occurrence and non-occurrence of observations over time.
use crate::kit::*;
use crate::sx::*;
use metrix::instruments::*;
use metrix::*;
use std::time::{Duration, Instant};

/// an occurrence now, whatever its time stamp says
fn hit<U: Updates>(u: &mut U, now: T) {
    let at = stamp(now);
    check!(u.update(&update_of(any_kind(), at)) == 1);
}
/// what is shown: the state, and the opposite of it next to it
fn shows<P: PutsSnapshot>(p: &P, on: bool) {
    let s = snap(p);
    check!(s.items.len() == 2);
    check!(boolean(&s, "s") == Some(on));
    check!(boolean(&s, "not_s") == Some(!on));
}
fn any_kind() -> Shape {
    [Shape::One, Shape::Many, Shape::Bool][pick(3)]
}
const SPAN: u64 = 1 << 40;

// On from an occurrence until the given time after the last occurrence, off otherwise.
//@ bounds=0_to_2_occurrences_at_any_times_within_2^40_s,_any_switch_off_time shared=staircase
harness!(c13_staircase, {
    staircase(2);
});
//@ bounds=0_to_3_occurrences_at_any_times_within_2^40_s,_any_switch_off_time shared=staircase tier=thorough shards=4
harness!(c13_staircase_more, {
    staircase(3);
});
fn staircase(most: u8) {
    let d = any_duration();
    let mut t = T::any(1 << 30);
    t.go();
    let default = coin();
    let mut s = StaircaseTimer::new("s").show_inverted_prefixed("not_");
    let d = if default { Duration::from_secs(60) } else { d };
    let n = pick(most + 1);
    // what it is when the last occurrence is handled matters
    let set_at = if default { n + 1 } else if n > 1 { pick(2) * (n - 1) } else { 0 };
    let invert = coin();
    s.set_invert(invert);
    let mut i = 0;
    let mut last = None;
    if n == 0 && !default {
        s.set_switch_off_after(d);
    }
    while i < n {
        if i == set_at {
            s.set_switch_off_after(d);
        }
        i += 1;
        t = later(t, SPAN);
        t.go();
        hit(&mut s, t);
        last = Some(t);
    }
    t = later(t, SPAN);
    t.go();
    check!(s.get_switch_off_after() == d);
    let on = match last {
        None => false,
        Some(l) => dur_le(t.since(l), d),
    };
    check!(s.state() == (on ^ invert));
    shows(&s, on ^ invert);
    check!(s.invert() == invert);
    cover!(n == most as usize && on && set_at > 0);
    cover!(n == most as usize && !on && invert);
}
// True exactly while the last occurrence is less than the given time ago.
//@ bounds=0_to_2_occurrences_at_any_times_within_2^40_s,_any_time_limit shared=occurrence
harness!(c13_occurrence, {
    occurrence(2);
});
//@ bounds=0_to_3_occurrences_at_any_times_within_2^40_s,_any_time_limit shared=occurrence tier=thorough shards=4
harness!(c13_occurrence_more, {
    occurrence(3);
});
fn occurrence(most: u8) {
    let mut t = T::any(1 << 30);
    t.go();
    let default = coin();
    let d = if default { Duration::from_secs(60) } else { any_duration() };
    let mut s = OccurrenceIndicator::new("s").show_inverted_prefixed("not_");
    let invert = coin();
    s.set_invert_enabled(invert);
    let n = pick(most + 1);
    // (setting it makes the indicator forget what happened)
    let set_at = if default { n + 1 } else { 0 };
    let mut i = 0;
    let mut last = None;
    loop {
        if i == set_at {
            s.set_if_happened_within(d);
        }
        if i == n {
            break;
        }
        i += 1;
        t = later(t, SPAN);
        t.go();
        hit(&mut s, t);
        last = Some(t);
    }
    t = later(t, SPAN);
    t.go();
    check!(s.get_if_happened_within() == d);
    let on = match last {
        None => false,
        Some(l) => dur_lt(t.since(l), d),
    };
    check!(s.state() == (on ^ invert));
    shows(&s, on ^ invert);
    check!(s.is_inverted() == invert);
    cover!(n == most as usize && on);
    cover!(n == most as usize && !on && invert);
}
// True exactly when the last occurrence (or the creation) is at least the given time ago.
//@ bounds=0_to_2_occurrences_at_any_times_within_2^40_s,_any_time_limit shared=non_occurrence
harness!(c13_non_occurrence, {
    non_occurrence(2);
});
//@ bounds=0_to_3_occurrences_at_any_times_within_2^40_s,_any_time_limit shared=non_occurrence tier=thorough shards=4
harness!(c13_non_occurrence_more, {
    non_occurrence(3);
});
fn non_occurrence(most: u8) {
    let mut t = T::any(1 << 30);
    t.go();
    let default = coin();
    let d = if default { Duration::from_secs(60) } else { any_duration() };
    let mut s = NonOccurrenceIndicator::new("s").show_inverted_prefixed("not_");
    let invert = coin();
    s.set_invert_enabled(invert);
    let n = pick(most + 1);
    // when it is set does not matter
    let set_at = if default { n + 1 } else { pick(2) * n };
    let mut i = 0;
    let mut last = t;
    loop {
        if i == set_at {
            s.set_if_not_happened_within(d);
        }
        if i == n {
            break;
        }
        i += 1;
        t = later(t, SPAN);
        t.go();
        hit(&mut s, t);
        last = t;
    }
    t = later(t, SPAN);
    t.go();
    check!(s.get_if_not_happened_within() == d);
    let on = !dur_lt(t.since(last), d);
    check!(s.state() == (on ^ invert));
    shows(&s, on ^ invert);
    check!(s.is_inverted() == invert);
    cover!(n == 0 && on);
    cover!(n == most as usize && !on && invert);
}
// The inverted value is shown next to the value, under the changed name.
//@ bounds=4_kinds_of_switch,_prefix,_postfix_and_new_name_(one_arbitrary_letter),_on_and_off
harness!(c13_show_inverted, {
    T::new(5000, 0).go();
    let (c, x) = any_name();
    let how = pick(3);
    let what = pick(4);
    let on = coin();
    let a = match how {
        0 => switches::NameAlternation::Prefix(x),
        1 => switches::NameAlternation::Postfix(x),
        _ => switches::NameAlternation::Rename(x),
    };
    let one = Update::Observation(Instant::now());
    let s = match what {
        0 => {
            let mut s = StaircaseTimer::new("s").show_inverted(a);
            if on {
                s.update(&one);
            }
            snap(&s)
        }
        1 => {
            let mut s = OccurrenceIndicator::new("s").show_inverted(a);
            if on {
                s.update(&one);
            }
            snap(&s)
        }
        2 => {
            let s = NonOccurrenceIndicator::new("s").show_inverted(a);
            if on {
                T::new(5060, 0).go();
            }
            snap(&s)
        }
        _ => snap(&Flag::new("s").state(on).show_inverted(a)),
    };
    check!(s.items.len() == 2);
    check!(boolean(&s, "s") == Some(on));
    let want: Vec<u8> = match how {
        0 => vec![c, b's'],
        1 => vec![b's', c],
        _ => vec![c],
    };
    // (an alternation may be the name itself: then it is there twice)
    let (name, v) = &s.items[1];
    check!(name.as_bytes().len() == want.len());
    let mut same = true;
    for i in 0..want.len() {
        same &= name.as_bytes()[i] == want[i];
    }
    check!(same);
    check!(*v == snapshot::ItemKind::Boolean(!on));
    cover!(what == 3 && how == 1);
});
// The shorthands for the changed name, and inversion by builder.
//@ bounds=one_letter
harness!(c13_builders, {
    T::new(5000, 0).go();
    let (c, x) = any_name();
    let s = match pick(8) {
        0 => snap(&StaircaseTimer::new("s").show_inverted_prefixed(x)),
        1 => snap(&StaircaseTimer::new("s").show_inverted_postfixed(x)),
        2 => snap(&OccurrenceIndicator::new("s").show_inverted_prefixed(x)),
        3 => snap(&OccurrenceIndicator::new("s").show_inverted_postfixed(x)),
        4 => snap(&NonOccurrenceIndicator::new("s").show_inverted_prefixed(x)),
        5 => snap(&NonOccurrenceIndicator::new("s").show_inverted_postfixed(x)),
        6 => snap(&Flag::new_with_state("s", false).show_inverted_prefixed(x)),
        _ => snap(&Flag::new_with_state("s", false).show_inverted_postfixed(x)),
    };
    check!(s.items.len() == 2);
    let n = s.items[1].0.as_bytes();
    check!(n.len() == 2);
    check!(((n[0] == c) & (n[1] == b's')) | ((n[0] == b's') & (n[1] == c)));
    check!(s.items[1].1 == snapshot::ItemKind::Boolean(true));
    check!(OccurrenceIndicator::new("s").inverted().state());
    check!(NonOccurrenceIndicator::new("s").inverted().state());
    let mut t = StaircaseTimer::new("s");
    t.enable_invert();
    check!(t.state());
    cover!();
});
