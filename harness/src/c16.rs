//! C16: values are found in a snapshot by their path.
use crate::kit::*;
use crate::sx::*;
use metrix::snapshot::*;
use std::time::Duration;

const NAMES: [&str; 4] = ["a", "b", "ab", ""];

/// what the rest of a path, given as bytes, leads to; names are compared as a whole, empty segments
/// skipped, values end the search
fn walk<'a>(mut at: &'a ItemKind, path: &[u8], sep: u8) -> Option<&'a ItemKind> {
    let mut i = 0;
    loop {
        while i < path.len() && path[i] == sep {
            i += 1;
        }
        if i == path.len() {
            return Some(at);
        }
        let from = i;
        while i < path.len() && path[i] != sep {
            i += 1;
        }
        match at {
            ItemKind::Snapshot(s) => {
                let mut hit = None;
                for (n, v) in &s.items {
                    if hit.is_none() && n.as_bytes() == &path[from..i] {
                        hit = Some(v);
                    }
                }
                match hit {
                    Some(v) => at = v,
                    None => return None,
                }
            }
            _ => return Some(at),
        }
    }
}
/// the same item, not just an equal one
fn is(found: &FindItem, want: Option<&ItemKind>) -> bool {
    match (found, want) {
        (FindItem::Found(a), Some(b)) => std::ptr::eq(*a, b),
        (FindItem::NotFound, None) => true,
        _ => false,
    }
}
fn tree() -> ItemKind {
    let mut inner = Snapshot::default();
    inner.push(NAMES[pick(4)], 1u8);
    let mut deep = Snapshot::default();
    deep.push("a", 2u8);
    inner.push("b", deep);
    let mut s = Snapshot::default();
    if coin() {
        s.push(NAMES[pick(4)], "text");
    }
    s.push("a", inner);
    s.push("ab", 3u8);
    s.push("a", 4u8);
    ItemKind::Snapshot(s)
}
fn any_path<const N: usize>(sep: u8) -> ([u8; N], usize) {
    let mut p = [0; N];
    let n = pick(N as u8 + 1);
    for i in 0..n {
        let c = u8v();
        assume((c == b'a') | (c == b'b') | (c == sep));
        p[i] = c;
    }
    (p, n)
}

fn find<const N: usize>() {
    let root = tree();
    let s = match &root {
        ItemKind::Snapshot(s) => s,
        _ => return,
    };
    let dot = coin();
    let sep = if dot { b'.' } else { b'/' };
    let (p, n) = any_path::<N>(sep);
    let p = &p[..n];
    let text = unsafe { std::str::from_utf8_unchecked(p) };
    let mut empty = true;
    for c in p {
        if *c != sep {
            empty = false;
        }
    }
    let want = if empty { None } else { walk(&root, p, sep) };
    let got = if dot { s.find_with_separator(text, '.') } else { s.find(text) };
    check!(is(&got, want));
    check!(got.opt().is_some() == want.is_some());
    cover!(n == N && want.is_some());
    cover!(n == N && want.is_none() && !empty);
}
// Any path of a few characters leads to what its non-empty segments name, first match first.
//@ bounds=paths_of_up_to_6_letters_or_separators,_trees_of_depth_3_with_duplicate,_empty_and_2-letter_names,_2_separators cost=3 shared=find
harness!(c16_find, {
    find::<6>()
});
//@ bounds=paths_of_up_to_9_letters_or_separators,_trees_of_depth_3_with_duplicate,_empty_and_2-letter_names,_2_separators tier=thorough shared=find shards=5
harness!(c16_find_more, {
    find::<9>()
});
// The same for given segments, whatever the item is.
//@ bounds=up_to_3_segments_of_4_names,_trees_as_above,_from_a_value,_too
harness!(c16_segments, {
    let root = if coin() { tree() } else { ItemKind::Int(5) };
    let n = pick(4);
    let mut segs: Vec<&str> = Vec::new();
    let mut bytes: Vec<u8> = Vec::new();
    for _ in 0..n {
        let x = NAMES[pick(4)];
        segs.push(x);
        bytes.extend_from_slice(x.as_bytes());
        bytes.push(b'/');
    }
    let want = walk(&root, &bytes, b'/');
    check!(is(&find_item(&root, &segs), want));
    cover!(n == 3 && want.is_none());
    cover!(n == 0);
});
// Searching on from what was found continues in a snapshot and finds nothing in a value or nothing.
//@ bounds=2_paths_of_up_to_2_letters_or_separators
harness!(c16_chained, {
    let root = tree();
    let s = match &root {
        ItemKind::Snapshot(s) => s,
        _ => return,
    };
    let (p, n) = any_path::<2>(b'/');
    let (q, m) = any_path::<2>(b'/');
    let a = s.find(unsafe { std::str::from_utf8_unchecked(&p[..n]) });
    let q = unsafe { std::str::from_utf8_unchecked(&q[..m]) };
    let b = a.find(q);
    match &a {
        FindItem::Found(i @ ItemKind::Snapshot(_)) => {
            let empty = q.bytes().all(|c| c == b'/');
            check!(is(&b, if empty { None } else { walk(i, q.as_bytes(), b'/') }));
            cover!(b != FindItem::NotFound);
        }
        _ => {
            check!(b == FindItem::NotFound);
            check!(b.to_duration_seconds() == FindDurationItem::NotFound);
            check!(b.opt().is_none());
            cover!();
        }
    }
});
// Separators of more than one byte.
//@ bounds=paths_of_up_to_4_of_two_letters_and_the_separator
harness!(c16_wide_separator, {
    let root = tree();
    let s = match &root {
        ItemKind::Snapshot(s) => s,
        _ => return,
    };
    let (p, n) = any_path::<4>(b'/');
    let mut text = String::new();
    for i in 0..n {
        match p[i] {
            b'/' => text.push('\u{2192}'),
            b'a' => text.push('a'),
            _ => text.push('b'),
        }
    }
    let empty = p[..n].iter().all(|c| *c == b'/');
    let want = if empty { None } else { walk(&root, &p[..n], b'/') };
    check!(is(&s.find_with_separator(&text, '\u{2192}'), want));
    cover!(want.is_some() && n == 4);
});
// Integers found are durations in the unit asked for; anything else is none.
//@ bounds=any_item_with_any_contents,_4_units
harness!(c16_durations, {
    let kind = pick(7);
    let v = u64v();
    let it = match kind {
        0 => ItemKind::UInt(v),
        1 => ItemKind::Int(v as i64),
        2 => ItemKind::Float(f64::from_bits(v)),
        3 => ItemKind::Boolean(v == 0),
        4 => ItemKind::Text("7".to_string()),
        5 => ItemKind::Snapshot(Snapshot::default()),
        _ => ItemKind::UInt(0),
    };
    let mut s = Snapshot::default();
    s.items.push(("x".to_string(), it));
    let f = s.find(if kind == 6 { "y" } else { "x" });
    let unit = pick(4);
    let (d, per) = match unit {
        0 => (f.to_duration_nanoseconds(), 1u64),
        1 => (f.to_duration_microseconds(), 1_000),
        2 => (f.to_duration_milliseconds(), 1_000_000),
        _ => (f.to_duration_seconds(), 1_000_000_000),
    };
    let per_second = 1_000_000_000 / per;
    match kind {
        0 | 1 => {
            if (kind == 1) & ((v as i64) < 0) {
                // there are no negative durations
                check!(d == FindDurationItem::NotADuration);
                cover!();
            } else {
                let want = Duration::new(v / per_second, ((v % per_second) * per) as u32);
                check!(d == FindDurationItem::Duration(want));
                check!(d.opt() == Some(want));
                cover!();
            }
        }
        6 => {
            check!(d == FindDurationItem::NotFound);
            check!(d.opt().is_none());
        }
        _ => {
            check!(d == FindDurationItem::NotADuration);
            check!(d.opt().is_none());
        }
    }
});

// Any depth, any number of items on a level, long names.
//@ bounds=a_tree_of_depth_12_with_20_items_on_each_level,_any_part_of_a_path_there,_with_one_segment_wrong_or_too_many_or_none
harness!(c16_deep, {
    const D: usize = 12;
    let name = |k: usize| format!("a_rather_long_name_{}", k);
    let mut at = ItemKind::UInt(77);
    for k in (0..D).rev() {
        let mut s = Snapshot::default();
        for i in 0..10u8 {
            s.push(format!("{}{}", name(k), i), i);
        }
        s.push(name(k), at);
        for i in 0..9u8 {
            s.push(format!("{}{}", i, name(k)), i);
        }
        at = ItemKind::Snapshot(s);
    }
    let n = 1 + pick(D as u8);
    let wrong = pick(n as u8 + 2);
    let mut path = String::new();
    for k in 0..n {
        path.push_str(["/", "", "//"][if k == 0 { pick(3) } else { 0 }]);
        if k == wrong {
            path.push('x');
        }
        path.push_str(&name(k));
    }
    if wrong == n + 1 {
        path.push_str("/more");
    }
    let want = walk(&at, path.as_bytes(), b'/');
    let s = match &at {
        ItemKind::Snapshot(s) => s,
        _ => return,
    };
    check!(is(&s.find(&path), want));
    check!(want.is_some() == (wrong == n || (wrong == n + 1 && n == D)));
    cover!(n == D && wrong == n);
    cover!(n == D && wrong == n + 1);
    cover!(wrong < n);
});

const WIDE: [&str; 11] = ["ä", "aä", "€", "日本", "a b", " ", "ä ", "\n", "Ä", "a\u{308}", "/"];
// Names are any text: of characters of several bytes, with blanks, alike but not the same.
//@ bounds=3_levels_with_10_such_names_each,_any_3_of_11_segments_with_one_of_2_separators,_given_as_path_or_one_by_one shards=4 cost=4
harness!(c16_names, {
    let mut s = Snapshot::default();
    for i in 0..10 {
        let mut a = Snapshot::default();
        for j in 0..10 {
            let mut b = Snapshot::default();
            for k in 0..10 {
                b.push(WIDE[k], (100 * i + 10 * j + k) as u64);
            }
            a.push(WIDE[j], b);
        }
        s.push(WIDE[i], a);
    }
    let whole = ItemKind::Snapshot(s.clone());
    let (i, j, k) = (pick(11), pick(11), pick(11));
    let n = 1 + pick(3);
    let all = [WIDE[i], WIDE[j], WIDE[k]];
    let way = pick(3);
    // a separator separates
    assume(way == 0 || [i, j, k].iter().all(|x| *x != 10));
    let path = match way {
        1 => all[..n].join("/"),
        _ => all[..n].join("§"),
    };
    let got = match way {
        0 => find_item(&whole, &all[..n]),
        1 => s.find(&path),
        _ => s.find_with_separator(&path, '§'),
    };
    let there = [i, j, k][..n].iter().all(|x| *x != 10);
    match got {
        FindItem::Found(ItemKind::UInt(v)) => check!(there && n == 3 && *v == (100 * i + 10 * j + k) as u64),
        FindItem::Found(ItemKind::Snapshot(_)) => check!(there && n < 3),
        FindItem::Found(_) => check!(false),
        FindItem::NotFound => check!(!there),
    }
    cover!(there && n == 3 && way == 1);
    cover!(!there);
});
