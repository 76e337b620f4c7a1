//! C06, C09, C10, C12: deeper documents, unusual member names, every kind of leaf.
use crate::docs::{FILTERS, FUNS, SEGS};
use crate::grammar::*;
use crate::oracle;
use crate::sym::*;
use serde_json::{Map, Value};
use serde_json_path::JsonPath;

/// How the names a..d are spelt: by a pattern around a symbolic letter, or by a table.
pub const SPELLINGS: usize = 12;
fn spell(c: u8, ks: usize) -> Vec<u8> {
    let k = c - b'a';
    let t: [&str; 4] = match ks {
        1 => return vec![c, b' '],
        2 => return vec![b' ', c],
        3 => return vec![b'0' + k],
        4 => return vec![0xc3, 0xa0 + k],
        5 => return vec![0xf0, 0x9f, 0x98, 0x80 + k],
        6 => ["", "a", "b", "c"],
        7 => ["a", "A", "aa", "\u{e1}"],
        8 => ["*", "$", "..", "@"],
        9 => ["'", "\"", "\\", "\n"],
        10 => ["-1", "0", "1:2", "?@"],
        11 => ["length", "null", "true", "a.b"],
        _ => return vec![c],
    };
    t[k as usize].as_bytes().to_vec()
}
fn name(c: u8, ks: usize) -> String {
    unsafe { String::from_utf8_unchecked(spell(c, ks)) }
}
fn quoted(c: u8, ks: usize, o: &mut String) {
    o.push('\'');
    for ch in name(c, ks).chars() {
        match ch {
            '\'' => o.push_str("\\'"),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('\'');
}
/// the query text with the names a..d spelt otherwise: `.a` becomes `['…']`
pub fn respell(t: &str, ks: usize) -> String {
    if ks == 0 {
        return t.to_string();
    }
    let b = t.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    let letter = |i: usize| i < b.len() && (b'a'..=b'd').contains(&b[i]);
    let word = |i: usize| i < b.len() && b[i].is_ascii_alphanumeric();
    while i < b.len() {
        if b[i] == b'.' && letter(i + 1) && !word(i + 2) {
            if i > 0 && b[i - 1] == b'.' {
                o.push('.');
            }
            o.push('[');
            quoted(b[i + 1], ks, &mut o);
            o.push(']');
            i += 2;
        } else if b[i] == b'\'' && letter(i + 1) && b[i + 2] == b'\'' {
            quoted(b[i + 1], ks, &mut o);
            i += 3;
        } else {
            o.push(b[i] as char);
            i += 1;
        }
    }
    o
}
/// distinct numbers; or, counting from below zero, one or two, which is undecided
fn leaf(next: &mut i64) -> Value {
    if *next < 0 {
        return Value::from(1 + flag() as i64);
    }
    *next += 1;
    Value::from(*next)
}
pub const LEAVES: usize = 8;
fn odd(k: usize, next: &mut i64) -> Value {
    match k {
        0 => leaf(next),
        1 => Value::Null,
        2 => Value::Bool(flag()),
        3 => Value::String(String::new()),
        4 => Value::String(class_string(1, KEY)),
        5 => Value::Array(vec![]),
        6 => Value::Object(Map::new()),
        _ => Value::from(0),
    }
}
/// A document one of whose branches is `depth` deep, its end being any kind of
/// value; what lies beside that branch are numbers. Names are symbolic letters.
pub fn spine(depth: usize, width: usize, ks: usize, leaves: usize, next: &mut i64) -> Value {
    if depth == 0 {
        return odd(pick(leaves), next);
    }
    let object = pick(2) == 1;
    let n = 1 + pick(width);
    let at = pick(n);
    let mut a = vec![];
    let mut m = Map::new();
    let mut prev = b'a' - 1;
    for i in 0..n {
        let v = if i == at { spine(depth - 1, width, ks, leaves, next) } else { leaf(next) };
        if object {
            let b = byte();
            assume((b > prev) & (b <= b'd'));
            prev = b;
            m.insert(name(b, ks), v);
        } else {
            a.push(v);
        }
    }
    if object {
        Value::Object(m)
    } else {
        Value::Array(a)
    }
}
/// an array of n numbers but for one element of any kind; or an object like it
fn flat(n: usize, ks: usize, next: &mut i64) -> Value {
    let at = pick(n);
    let object = pick(2) == 1;
    let mut a = vec![];
    let mut m = Map::new();
    for i in 0..n {
        let v = if i == at { odd(pick(LEAVES), next) } else { leaf(next) };
        if object {
            m.insert(name(b'a' + i as u8, ks), v);
        } else {
            a.push(v);
        }
    }
    if object {
        Value::Object(m)
    } else {
        Value::Array(a)
    }
}
/// a spelling; from 100 on any of those from that number less 100 to 11
fn spelling(i: u64) -> usize {
    match param(i) {
        k if k >= 100 => k - 100 + pick(SPELLINGS - (k - 100)),
        k => k,
    }
}
/// located: 0 no, 1 the nodes, 2 with their locations
fn run(t: &str, d: &Value, located: usize, id: u64) {
    let (p, o) = (JsonPath::parse(t).unwrap(), oracle::parse(t).unwrap());
    let want = nodes_ok(p.query(d), &o, d, id);
    observe(1, want.len() as u64);
    match located {
        0 => (),
        1 => located_nodes_ok(p.query_located(d), &want, id + 2),
        _ => located_ok(p.query_located(d), &want, id + 2),
    }
    reach(if want.is_empty() { 2 } else { 1 });
}
fn pair(i: usize, alt: usize) -> String {
    let mut t = "$".to_string() + SEGS[i];
    if alt > 0 {
        t.push_str(SEGS[pick(alt)]);
    }
    t
}
/// C06, C12 as h_nodes, on documents with one deep branch. params: segment,
/// depth, width, alternatives for a second segment, spelling, kinds of leaf, located
pub fn h_deep() {
    let ks = spelling(4);
    let t = respell(&pair(param(0), param(3)), ks);
    let d = spine(param(1), param(2), ks, param(5), &mut 0);
    run(&t, &d, param(6), 620);
}
/// C06, C12 wide arrays and objects with one element of any kind. params:
/// segment, size, spelling, located
pub fn h_wide() {
    let ks = spelling(2);
    let t = respell(&pair(param(0), 0), ks);
    let d = flat(param(1), ks, &mut 0);
    run(&t, &d, param(3), 630);
}
pub static DEEP: &[&str] = &[
    "$[?@[?@==$[0]]]", "$[?@[?$[0][0]]]", "$..[?$[0]]", "$[?@==$[0]]", "$[?$[0]==$[1]]", "$[?@[?@==$.a]]", "$[?$]", "$[?$==@]", "$[?@==$]", "$[?length($)==2]", "$[?count($..*)>3]", "$[?@.a[?$.b]]",
    "$[?@[?@[?@]]]", "$[?@[?@.a==$.b]]", "$..[?@..a]", "$..[?@==$..a]", "$[?@[?count($.*)==2]]", "$[?value($..a)==@]", "$..[?@.a==$.a]", "$[?@[?@!=$[0]]]", "$[?@.a[?@==$.a.b]]", "$[?$[-1]==@]", "$..[?@==null]", "$..[?@==false]",
    "$..[?@=='']", "$..[?@==0]", "$..[?!@.*]", "$..[?@.*==null]", "$[?@<$[1]||@.a]", "$..[?@ && !@[0]]",
];
/// C09, C10 filters and functions on documents with one deep branch. params:
/// list, index, depth, width, spelling, kinds of leaf
pub fn h_deepfil() {
    let t = match param(0) {
        0 => FILTERS[param(1)],
        1 => FUNS[param(1)],
        _ => DEEP[param(1)],
    };
    let ks = spelling(4);
    let t = respell(t, ks);
    if oracle::parse(&t).is_err() {
        check(JsonPath::parse(&t).is_err(), 930);
        reach(2);
        return;
    }
    let d = spine(param(2), param(3), ks, param(5), &mut -1);
    run(&t, &d, 1, 931);
}
/// C09 the same on wide arrays and objects. params: list, index, size, spelling
pub fn h_widefil() {
    let t = match param(0) {
        0 => FILTERS[param(1)],
        1 => FUNS[param(1)],
        _ => DEEP[param(1)],
    };
    let ks = spelling(3);
    let t = respell(t, ks);
    if oracle::parse(&t).is_err() {
        check(JsonPath::parse(&t).is_err(), 940);
        reach(2);
        return;
    }
    let d = flat(param(2), ks, &mut -1);
    run(&t, &d, 1, 941);
}
/// C08 strings of n and m bytes, any two
pub fn h_strs() {
    let (n, m) = (param(0), param(1));
    let l = Value::String(string(n));
    let r = Value::String(string(m));
    let d = crate::docs::under_x(crate::docs::row(Some(l), Some(r)), None);
    crate::docs::compare_all("@.l", "@.r", &d, 8400);
}
