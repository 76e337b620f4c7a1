//! C22: what more of the same costs. Each entry does something at a size and at
//! twice that size, on the same free bytes, and compares the instructions executed.
use crate::sym::*;
use serde_json::{Map, Value};
use serde_json_path::JsonPath;

fn rep(o: &mut Vec<u8>, s: &[u8], n: usize) {
    for _ in 0..n {
        o.extend_from_slice(s);
    }
}
/// nested texts: what opens a level, what closes it, what is around, the innermost
/// part and how many free bytes of FILT come with it, before it and at the very end
pub const NESTS: &[(&str, &str, &str, &str, &str)] = &[
    // 0: filters
    ("[?@", "]", "$", "", ""),
    ("[?$", "]", "$", "", ""),
    ("[?@.a", "]", "$", "", ""),
    ("['a',?@..b", ",0]", "$", "", ""),
    ("[?@[0]==1&&@", "]", "$", "", ""),
    // 5: parentheses and negation
    ("(", ")", "$[?", "@.a", "]"),
    ("!(", ")", "$[?", "@.a", "]"),
    ("!( ", " )", "$[?", "1==@.a", "]"),
    ("(@.a||", ")", "$[?", "@", "]"),
    ("(@.a==1&&", ")", "$[?", "!@", "]"),
    // 10: functions
    ("count(@[?", "]) == 1", "$[?", "@", "]"),
    ("1==value(@[?", "])", "$[?", "@", "]"),
    ("length(value(@[?", "]))<2", "$[?", "@", "]"),
    ("match(@.a,value($[?", "]))", "$[?", "@", "]"),
    ("@.a!=id(value(@.b[?", "]))", "$[?", "@.a", "]"),
    // 15: functions as arguments
    ("id(", ")", "$[?1==", "@.a", "]"),
    ("neg(", ")", "$[?", "@.a==1", "]"),
    ("last(", ")", "$[?", "@.*", "]"),
    ("neg(!", ")", "$[?", "@.a", "]"),
    ("neg((", "))", "$[?", "@.a", "]"),
    // 20
    ("pair(@.a,", ")", "$[?1==", "null", "]"),
    ("neg(1==id(value(@[?", "])))", "$[?", "@", "]"),
    ("join(@.*, ", ")", "$[?", "@", "]"),
    ("if1(1==1,@.a,", ")", "$[?1==", "1", "]"),
    ("if1(", ",1,2)==1", "$[?", "@.a", "]"),
    // 25: a mix
    ("@[?(neg(@.a&&", "))]", "$[?", "@", "]"),
    ("!@[?", "]", "$[?", "@.a", "]"),
    ("has(@[?", "])", "$[?", "@.a", "]"),
    ("!has(@[?", "])", "$[?", "@.a", "]"),
    ("@.a<1||@[?", "]", "$[?", "@.a", "]"),
    // 30: more that compares on the right, or can not
    ("$..a==value(@[?", "])", "$[?", "@", "]"),
    ("'a'==@[?", "]", "$[?", "@", "]"),
    ("@.a==match(@.a,value(@[?", "]))", "$[?", "@", "]"),
    ("true&&(", ")", "$[?", "@", "]"),
    ("nope(@[?", "])", "$[?", "@", "]"),
];
/// texts that go on: what repeats, what is around
pub const LONGS: &[(&str, &str, &str)] = &[
    ("$", ".a", ""),
    ("$", "['a']", ""),
    ("$", "..a", ""),
    ("$", "[*]", ""),
    ("$", "[1:2:3]", ""),
    // 5
    ("$[0", ",0", "]"),
    ("$['a'", ", 'b'", "]"),
    ("$[1:2", ",::-1", "]"),
    ("$[?@", "&&@.a", "]"),
    ("$[?@", " || @.a==1", "]"),
    // 10
    ("$[?@", "&&1<=2", "]"),
    ("$[?@", "||(@.a)", "]"),
    ("$[?1==1", "&&!@.a", "]"),
    ("$[?@", "&&match(@,'a')", "]"),
    ("$.a", "a", ""),
    // 15
    ("$['a", "a", "']"),
    ("$[\"a", "\\u0061", "\"]"),
    ("$[?@=='", "\u{e9}", "']"),
    ("$[", " ", "0]"),
    ("$[?", "\t", "@ ]"),
    // 20
    ("$[?@.", "\u{e9}", "]"),
    ("$[?@", ".a", "==1]"),
    ("$[?1==@", "[0]", "]"),
    ("$[?@==1", "0", "]"),
    ("$[?@==1.", "5", "]"),
    // 25
    ("$[?count(@", ".*", ")==1]"),
    ("$[?length(@", ".a", ")==1]"),
    ("$[?mix(@.*,1,@", "||@", ")==1]"),
    ("$[?nope(1", ",1", ")]"),
    ("$[?neg(@", "&&@", ")]"),
    // 30
    ("$[?@", "[?@]", "]"),
    ("$", "[?@.a]", ""),
    ("$[?@", ",?@", "]"),
    ("$[-1", "1", "]"),
    ("$[", "\n", "'a' , 'b' ]"),
    // 35
    ("$", "\n", ".a"),
    ("$['\\\\", "\\n", "']"),
    ("$['", "\\uD834\\uDD1E", "']"),
    ("$[?abc", "d", "(@)]"),
    ("$[?@.a=='x'", " ", "]"),
];
fn parse(t: &[u8]) -> Option<JsonPath> {
    JsonPath::parse(as_str(t)).ok()
}
fn json(t: &str) -> Value {
    serde_json::from_str(t).unwrap()
}
fn warm() {
    let _ = parse(b"$[?count(@.a)==1&&neg(@)]");
}
/// Twice the size takes at most k / 2 times as much. Where there is little to do,
/// growing a vector once more may be much of it.
fn within(a: u64, b: u64, k: u64, id: u64) {
    check(2 * b <= k * a + 4000, id);
}
fn nested(i: usize, n: usize, free: &[u8]) -> Vec<u8> {
    let (open, close, before, core, after) = NESTS[i];
    let mut v = before.as_bytes().to_vec();
    rep(&mut v, open.as_bytes(), n);
    v.extend_from_slice(core.as_bytes());
    v.extend_from_slice(&free[..1]);
    rep(&mut v, close.as_bytes(), n);
    v.extend_from_slice(&free[1..]);
    v.extend_from_slice(after.as_bytes());
    v
}
fn long(i: usize, n: usize, free: &[u8]) -> Vec<u8> {
    let (before, unit, after) = LONGS[i];
    let mut v = before.as_bytes().to_vec();
    rep(&mut v, unit.as_bytes(), n);
    v.extend_from_slice(&free[..1]);
    v.extend_from_slice(after.as_bytes());
    v.extend_from_slice(&free[1..]);
    v
}
/// Texts: (0, template, n) nested, (1, template, n) long. Parsing, and printing,
/// cloning, comparing what it gives.
pub fn h_cost() {
    let (kind, i, n) = (param(0), param(1), param(2));
    let free = text(&[FILT, FILT]);
    let make = if kind == 0 { nested } else { long };
    let (t1, t2) = (make(i, n, &free), make(i, 2 * n, &free));
    warm();
    let p1 = cost(&|| drop(parse(&t1)));
    let p2 = cost(&|| drop(parse(&t2)));
    within(p1, p2, 5, 1);
    let (q1, q2) = (parse(&t1), parse(&t2));
    reach(1 + q1.is_some() as u64);
    check(q1.is_some() == q2.is_some(), 2);
    if let (Some(q1), Some(q2)) = (q1, q2) {
        within(cost(&|| drop(q1.to_string())), cost(&|| drop(q2.to_string())), 5, 3);
        within(cost(&|| drop(q1.clone())), cost(&|| drop(q2.clone())), 5, 4);
        let (r1, r2) = (q1.clone(), q2.clone());
        within(cost(&|| check(r1 == q1, 5)), cost(&|| check(r2 == q2, 5)), 5, 6);
    }
}

/// An array or object of n elements, or one n deep; the innermost value, or every
/// element, is made by `leaf`.
fn document(form: usize, n: usize, leaf: &Value) -> Value {
    match form {
        0 => Value::Array((0..n).map(|_| leaf.clone()).collect()),
        1 => {
            let mut m = Map::new();
            for i in 0..n {
                m.insert(format!("{}{}", (b'a' + (i / 10) as u8) as char, i % 10), leaf.clone());
            }
            Value::Object(m)
        }
        _ => {
            let mut v = leaf.clone();
            for i in 0..n {
                v = if form == 2 || form == 4 && i % 2 == 0 {
                    Value::Array(vec![v])
                } else {
                    let mut m = Map::new();
                    m.insert("a".to_string(), v);
                    Value::Object(m)
                };
            }
            v
        }
    }
}
pub const EVALS: &[&str] = &[
    "$",
    "$.*",
    "$[*,*]",
    "$..*",
    "$..a",
    // 5
    "$..[0]",
    "$[1:]",
    "$[::-1]",
    "$..[::2]",
    "$[?@]",
    // 10
    "$[?@.a]",
    "$..[?@.a==1]",
    "$[?@==$]",
    "$[?count(@..*)>1]",
    "$[?length(@)<3]",
    // 15
    "$..[?match(@,'a')]",
    "$[?@.a&&@.b||@.c]",
    "$[?!@.*]",
    "$[?@[?@[?@]]]",
    "$[?neg(neg(@.a))]",
    // 20
    "$[?last(@.*)]",
    "$[?@..a]",
    "$[0,1,'a','a0',*]",
    "$[?value(@.*)==1]",
    "$.*.*",
    // 25: in a chain these take quadratic time, and there are as many pairs
    "$..[?@..a]",
    "$..[?count(@..*)>1]",
    "$..[?@==$]",
];
/// Evaluating: (query, form of the document, n, form of result)
pub fn h_costdoc() {
    let (i, form, n, how) = (param(0), param(1), param(2), param(3));
    let q = parse(EVALS[i].as_bytes()).unwrap();
    let k = pick(6);
    let leaf = match k {
        0 => Value::from(flag() as i64),
        1 => Value::String(class_string(1, KEY)),
        2 => Value::Array(vec![Value::from(1)]),
        3 => Value::Null,
        4 => Value::Object(Map::new()),
        _ => json("{\"a\":[1,{\"b\":2}]}"),
    };
    let (d1, d2) = (document(form, n, &leaf), document(form, 2 * n, &leaf));
    let f = |d: &Value| match how {
        0 => drop(q.query(d)),
        1 => drop(q.query_located(d)),
        _ => {
            let l = q.query_located(d).dedup();
            for n in l.iter() {
                drop(n.location().to_string());
                drop(n.location().to_json_pointer());
            }
        }
    };
    f(&d1);
    let (a, b) = (cost(&|| f(&d1)), cost(&|| f(&d2)));
    reach(1);
    // a location is as long as it is deep
    within(a, b, if form > 1 && (how > 0 || i >= 25) { 9 } else { 5 }, 1);
}
/// A filter or function nested n deep on a document as deep
pub fn h_costnest() {
    let (i, form, n) = (param(0), param(1), param(2));
    let free = [b' ', b' '];
    let b = byte();
    assume(b < 2);
    let run = |n: usize| {
        let q = parse(&nested(i, n, &free));
        let d = document(form, n + 1, &Value::from(b));
        (q, d)
    };
    let ((q1, d1), (q2, d2)) = (run(n), run(2 * n));
    reach(1);
    if let (Some(q1), Some(q2)) = (q1, q2) {
        reach(2);
        drop(q1.query(&d1));
        within(cost(&|| drop(q1.query(&d1))), cost(&|| drop(q2.query(&d2))), 8, 1);
        within(cost(&|| drop(q1.query_located(&d1))), cost(&|| drop(q2.query_located(&d2))), 10, 2);
    }
}
