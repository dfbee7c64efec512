//! C04: label filters accept exactly the labels they were given.
use crate::sx::*;
use metrix::instruments::*;

fn any_of(ls: &[u8], x: u8) -> bool {
    ls.iter().fold(false, |a, l| a | (*l == x))
}

// From a label, a tuple, a vector or one of the wrappers: accepts exactly the labels given.
//@ bounds=up_to_7_labels,_all_byte_labels
harness!(c04_given, {
    let ls: [u8; 7] = [u8v(), u8v(), u8v(), u8v(), u8v(), u8v(), u8v()];
    let x = u8v();
    let way = pick(16);
    let (f, n): (LabelFilter<u8>, usize) = match way {
        0 => (LabelFilter::new(ls[0]), 1),
        1 => (ls[0].into(), 1),
        2 => ((ls[0], ls[1]).into(), 2),
        3 => ((ls[0], ls[1], ls[2]).into(), 3),
        4 => ((ls[0], ls[1], ls[2], ls[3]).into(), 4),
        5 => ((ls[0], ls[1], ls[2], ls[3], ls[4]).into(), 5),
        6 => (L(ls[0]).into(), 1),
        7 => (AcceptOneLabel(ls[0]).into(), 1),
        k => (ls[..k - 8].to_vec().into(), k - 8),
    };
    let ok = f.accepts(&x);
    check!(ok == any_of(&ls[..n], x));
    cover!(way == 15 && ok);
    cover!(way == 8 && !ok);
    cover!(way == 5 && ok);
});

fn added(most: u8) {
    let x = u8v();
    let (lo, hi) = (u8v(), u8v());
    let base = pick(7);
    let mut f: LabelFilter<u8> = match base {
        0 => LabelFilter::accept_none(),
        1 => LabelFilter::accept_all(),
        2 => LabelFilter::default(),
        3 => LabelFilter::predicate(move |l| *l >= lo && *l <= hi),
        4 => LabelPredicate(move |l: &u8| *l >= lo && *l <= hi).into(),
        5 => LP(move |l: &u8| *l >= lo && *l <= hi).into(),
        _ => AcceptNoLabel.into(),
    };
    let all = (base == 1) | (base == 2);
    let pred = (base >= 3) & (base <= 5);
    let mut want = all | (pred & (lo <= x) & (x <= hi));
    check!(f.accepts(&x) == want);
    let n = pick(most + 1);
    for _ in 0..n {
        let l = u8v();
        f.accept_another(l);
        want |= l == x;
        check!(f.accepts(&x) == want);
    }
    cover!(n == most as usize && base == 0);
    cover!(n == most as usize && base == 3);
    cover!(n == 0 && base == 6);
}
// Adding labels one by one, whatever the filter was before, adds exactly that label.
//@ bounds=0..=7_added_labels_on_top_of_none,_all,_default,_predicates shared=added
harness!(c04_added, {
    added(7)
});
//@ bounds=0..=12_added_labels_on_top_of_none,_all,_default,_predicates tier=thorough shared=added timeout=800
harness!(c04_added_more, {
    added(12)
});

// Other label types: strings (compared by content), and the accept-all wrapper.
//@ bounds=one-letter_strings
harness!(c04_strings, {
    let (a, sa) = crate::kit::any_name();
    let (b, sb) = crate::kit::any_name();
    let (x, sx) = crate::kit::any_name();
    let mut f: LabelFilter<String> = sa.into();
    check!(f.accepts(&sx) == (x == a));
    f.accept_another(sb);
    check!(f.accepts(&sx) == ((x == a) | (x == b)));
    check!(!f.accepts(&String::new()));
    let g: LabelFilter<String> = AcceptAllLabels.into();
    check!(g.accepts(&sx));
    cover!(a != b);
});

// The number of labels does not matter.
//@ bounds=0_to_40_labels,_given_at_once_or_one_by_one,_3_of_them_arbitrary
harness!(c04_many, {
    let n = [8, 9, 16, 17, 32, 33, 40][pick(7)];
    let (a, b, c, x) = (u8v(), u8v(), u8v(), u8v());
    let mut ls: Vec<u8> = (0..n).map(|i| 100 + i as u8).collect();
    ls[0] = a;
    ls[n / 2] = b;
    ls[n - 1] = c;
    let want = any_of(&ls, x);
    let f: LabelFilter<u8> = if coin() {
        ls.into()
    } else {
        let mut f = LabelFilter::accept_none();
        for l in ls {
            f.accept_another(l);
        }
        f
    };
    check!(f.accepts(&x) == want);
    cover!(want && x < 100);
    cover!(!want && x < 100 && n == 40);
});
