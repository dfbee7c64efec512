//! C18: the JSON of a snapshot says what the snapshot says.
use crate::kit::*;
use crate::sx::*;
use metrix::snapshot::*;

#[derive(PartialEq, Debug)]
enum J {
    Null,
    Bool(bool),
    /// negative?, digits, the power of ten
    Num(bool, u128, i32),
    Str(Vec<u8>),
    Obj(Vec<(Vec<u8>, J)>),
}
/// a strict reader of JSON objects, strings, numbers and literals
struct R<'a> {
    b: &'a [u8],
    i: usize,
    bad: bool,
}
impl<'a> R<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) {
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
        } else {
            self.bad = true;
        }
    }
    fn word(&mut self, w: &[u8]) {
        for c in w {
            self.eat(*c);
        }
    }
    fn string(&mut self) -> Vec<u8> {
        let mut out = Vec::new();
        self.eat(b'"');
        while !self.bad {
            if self.i >= self.b.len() {
                self.bad = true;
                break;
            }
            let c = self.b[self.i];
            self.i += 1;
            if c == b'"' {
                break;
            } else if c == b'\\' {
                let e = self.peek();
                self.i += 1;
                match e {
                    b'"' | b'\\' | b'/' => out.push(e),
                    b'n' => out.push(b'\n'),
                    b'r' => out.push(b'\r'),
                    b't' => out.push(b'\t'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let mut v = 0u32;
                        for _ in 0..4 {
                            let h = self.peek();
                            self.i += 1;
                            let d = match h {
                                b'0'..=b'9' => h - b'0',
                                b'a'..=b'f' => h - b'a' + 10,
                                b'A'..=b'F' => h - b'A' + 10,
                                _ => {
                                    self.bad = true;
                                    0
                                }
                            };
                            v = v * 16 + d as u32;
                        }
                        if v < 128 {
                            out.push(v as u8);
                        } else {
                            self.bad = true;
                        }
                    }
                    _ => self.bad = true,
                }
            } else if c < 32 {
                self.bad = true;
            } else {
                out.push(c);
            }
        }
        out
    }
    fn number(&mut self) -> J {
        let neg = self.peek() == b'-';
        if neg {
            self.i += 1;
        }
        let mut v = 0u128;
        let mut exp = 0i32;
        let mut digits = 0;
        while self.i < self.b.len() {
            let d = self.peek().wrapping_sub(b'0');
            if d > 9 {
                break;
            }
            v = v.wrapping_mul(10).wrapping_add(d as u128);
            digits += 1;
            self.i += 1;
        }
        if self.peek() == b'.' {
            self.i += 1;
            while self.i < self.b.len() && self.peek().wrapping_sub(b'0') <= 9 {
                v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u128);
                exp -= 1;
                digits += 1;
                self.i += 1;
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            let m = self.peek() == b'-';
            if m || self.peek() == b'+' {
                self.i += 1;
            }
            let mut x = 0;
            while self.peek().wrapping_sub(b'0') <= 9 {
                x = x * 10 + (self.peek() - b'0') as i32;
                self.i += 1;
            }
            exp += if m { -x } else { x };
        }
        if digits == 0 {
            self.bad = true;
        }
        J::Num(neg, v, exp)
    }
    fn value(&mut self) -> J {
        self.ws();
        let r = match self.peek() {
            b'n' => {
                self.word(b"null");
                J::Null
            }
            b't' => {
                self.word(b"true");
                J::Bool(true)
            }
            b'f' => {
                self.word(b"false");
                J::Bool(false)
            }
            b'"' => J::Str(self.string()),
            b'{' => {
                self.i += 1;
                let mut o = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                } else {
                    while !self.bad {
                        self.ws();
                        let k = self.string();
                        self.ws();
                        self.eat(b':');
                        let v = self.value();
                        o.push((k, v));
                        self.ws();
                        if self.peek() == b',' {
                            self.i += 1;
                        } else {
                            self.eat(b'}');
                            break;
                        }
                    }
                }
                J::Obj(o)
            }
            _ => self.number(),
        };
        self.ws();
        r
    }
}
fn read(s: &str) -> J {
    let mut r = R { b: s.as_bytes(), i: 0, bad: false };
    let j = r.value();
    check!(!r.bad);
    check!(r.i == r.b.len());
    j
}
fn is_int(j: &J, v: i128) -> bool {
    match j {
        J::Num(neg, d, e) => {
            let mut d = *d;
            let mut e = *e;
            while e > 0 {
                d = d.wrapping_mul(10);
                e -= 1;
            }
            (e == 0) & (d == v.unsigned_abs()) & ((v < 0) == *neg)
        }
        _ => false,
    }
}
/// does the JSON say what the item says?
fn says(j: &J, it: &ItemKind, ints: bool) -> bool {
    match it {
        ItemKind::Text(t) => match j {
            J::Str(s) => &s[..] == t.as_bytes(),
            _ => false,
        },
        ItemKind::Boolean(b) => {
            if ints {
                is_int(j, *b as i128)
            } else {
                *j == J::Bool(*b)
            }
        }
        ItemKind::UInt(v) => is_int(j, *v as i128),
        ItemKind::Int(v) => is_int(j, *v as i128),
        ItemKind::Float(x) => match j {
            J::Null => x.is_nan() | x.is_infinite(),
            J::Num(neg, d, e) => {
                let mut y = *d as f64;
                let mut e = *e;
                while e > 0 {
                    y *= 10.0;
                    e -= 1;
                }
                while e < 0 {
                    y /= 10.0;
                    e += 1;
                }
                if *neg {
                    y = -y;
                }
                let d = (y - x).abs();
                d <= 1e-9 * x.abs()
            }
            _ => false,
        },
        ItemKind::Snapshot(s) => match j {
            J::Obj(o) => {
                let mut ok = o.len() == s.items.len();
                for (k, v) in &s.items {
                    let mut hit = false;
                    for (n, w) in o {
                        if &n[..] == k.as_bytes() {
                            hit = says(w, v, ints);
                        }
                    }
                    ok &= hit;
                }
                ok
            }
            _ => false,
        },
    }
}
fn config() -> JsonConfig {
    JsonConfig {
        make_booleans_ints: coin(),
        pretty: if coin() { Some(2) } else { None },
    }
}
fn holds(s: Snapshot, c: &JsonConfig) {
    let t = s.to_json(c);
    let j = read(&t);
    check!(says(&j, &ItemKind::Snapshot(s), c.make_booleans_ints));
}

fn structure(more: bool) {
    let c = config();
    let kind = |v: u8| -> ItemKind {
        match pick(7) {
            0 => ItemKind::Text("hi".to_string()),
            1 => ItemKind::Boolean(true),
            2 => ItemKind::Boolean(false),
            3 => ItemKind::UInt(v as u64),
            4 => ItemKind::Int(-(v as i64)),
            5 => ItemKind::Snapshot(Snapshot::default()),
            _ => ItemKind::Float(0.5),
        }
    };
    let mut inner = Snapshot::default();
    let n = pick(2);
    if n == 1 {
        inner.push("z", kind(7));
    }
    let mut s = Snapshot::default();
    s.push("_x", kind(1));
    s.push("a b", inner);
    s.push("c", kind(120));
    if more {
        s.push("de", kind(0));
    }
    holds(s, &c);
    check!(Snapshot::default().to_default_json() == "{}");
    cover!(n == 1 && c.pretty.is_some() && c.make_booleans_ints);
}
// Nesting, kinds of items, booleans as integers, indentation.
//@ bounds=3_items_of_7_kinds_on_2_levels,_all_configurations shared=structure
harness!(c18_structure, {
    structure(false)
});
//@ bounds=4_items_of_7_kinds_on_2_levels,_all_configurations tier=thorough shared=structure timeout=800
harness!(c18_structure_more, {
    structure(true)
});
// The default configuration is compact with real booleans.
//@ bounds=one_boolean_and_one_integer
harness!(c18_default, {
    let b = coin();
    let mut s = Snapshot::default();
    s.push("b", b);
    s.push("n", 5u8);
    let t = s.to_default_json();
    check!(t == if b { "{\"b\":true,\"n\":5}" } else { "{\"b\":false,\"n\":5}" });
    check!(s.to_json(&JsonConfig::default()) == t);
    cover!(b);
});
// Any integers.
//@ bounds=any_value_below_10000_and_within_3000_of_the_ends_of_the_ranges_of_i64_and_u64
harness!(c18_integers, {
    let near = (u16v() % 3000) as u64;
    let it = match pick(5) {
        0 => ItemKind::UInt((u16v() % 10000) as u64),
        1 => ItemKind::Int(-((u16v() % 10000) as i64)),
        2 => ItemKind::UInt(u64::MAX - near),
        3 => ItemKind::Int(i64::MIN + near as i64),
        _ => ItemKind::Int(i64::MAX - near as i64),
    };
    let mut s = Snapshot::default();
    s.items.push(("n".to_string(), it));
    cover!(near == 7);
    holds(s, &JsonConfig::default());
});
// Texts and names with any characters: everything that has to be escaped is.
//@ bounds=texts_of_up_to_2_and_names_of_one_of_all_ascii_characters,_one_text_beyond
harness!(c18_texts, {
    let n = pick(4);
    let mut t: Vec<u8> = Vec::new();
    for _ in 0..n.min(2) {
        let c = u8v();
        assume(c < 128);
        t.push(c);
    }
    let mut s = Snapshot::default();
    let c = u8v();
    assume(c < 128);
    let name = if n == 3 { name_of(c) } else { "k".to_string() };
    if n == 3 {
        s.push(name, "gr\u{fc}\u{df}e \u{1f600} long enough not to be kept inline");
    } else {
        s.push(name, unsafe { String::from_utf8_unchecked(t) });
    }
    holds(s, &JsonConfig::default());
    cover!(n == 2);
    cover!(n == 3);
});
// Floats: what is no number is null.
//@ bounds=20_floats
harness!(c18_floats, {
    const FS: [f64; 20] = [
        0.0, -0.0, 1.0, -1.5, 0.1, 1e-7, 123456.789, 1e15, 1e21, -1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 2.5e-10,
        99.99999, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 3.0, 1e6,
    ];
    let k = pick(20);
    let mut s = Snapshot::default();
    s.push("f", FS[k]);
    // (5e-324 loses its digits in the reader's own arithmetic)
    if k == 10 || k == 11 || k == 12 || k == 9 {
        let t = s.to_default_json();
        let j = read(&t);
        check!(matches!(j, J::Obj(_)));
    } else {
        holds(s, &JsonConfig::default());
    }
    cover!(k == 15);
});

// Any depth and any number of items.
//@ bounds=8_levels_with_12_items_each,_all_configurations,_any_boolean
harness!(c18_deep, {
    let c = config();
    let b = coin();
    let mut at = Snapshot::default();
    for k in 0..8u8 {
        let mut s = Snapshot::default();
        for i in 0..10u8 {
            let n = format!("name_{}_{}", k, i);
            match i % 5 {
                0 => s.push(n, i),
                1 => s.push(n, b),
                2 => s.push(n, -(i as i64)),
                3 => s.push(n, "some \"text\""),
                _ => s.push(n, Snapshot::default()),
            }
        }
        s.push("further", at);
        s.push("last", f64::NAN);
        at = s;
    }
    holds(at, &c);
    cover!(b);
});
