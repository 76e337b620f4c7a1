//! C01, C02, C04, C05, C15, C19: texts of queries.
use crate::oracle::{self, Bad, Elem, Node, Query};
use crate::sym::*;
use serde_json::Value;
use serde_json_path::{JsonPath, JsonPathExt, LocatedNodeList, NodeList};
use std::str::FromStr;

/// A document on which differently structured short queries give different answers.
pub fn probe() -> Value {
    serde_json::from_str(r#"{"":{"a":7},"a":[{"a":1,"b":[]},[0,[1,2],{"a":"x"}],"s",4],"b":{"a":{"a":2,"b":3},"b":null,"c":[5,6]},"c":{"a":true,"b":"a"}}"#).unwrap()
}

pub fn same_nodes(r: &[&Value], o: &[Node]) -> bool {
    if r.len() != o.len() {
        return false;
    }
    for i in 0..r.len() {
        if !std::ptr::eq(r[i], o[i].v) {
            return false;
        }
    }
    true
}
/// the nodes are the ones the query selects; returns those
pub fn nodes_ok<'a>(l: NodeList, q: &Query, d: &'a Value, id: u64) -> Vec<Node<'a>> {
    let n = l.len();
    let v = l.all();
    let o = oracle::expected(q, d, &|o| same_nodes(&v, o));
    check(n == o.len(), id);
    check(same_nodes(&v, &o), id + 1);
    o
}
pub fn path_is(p: &serde_json_path::NormalizedPath, o: &[Elem]) -> bool {
    if p.len() != o.len() {
        return false;
    }
    for (a, b) in p.iter().zip(o) {
        let ok = match b {
            Elem::Key(k) => a.as_name().map_or(false, |n| n.as_bytes() == k.as_bytes()) & a.as_index().is_none(),
            Elem::Idx(i) => (a.as_index() == Some(*i)) & a.as_name().is_none(),
        };
        if !ok {
            return false;
        }
    }
    true
}
pub fn located_ok(l: LocatedNodeList, o: &[Node], id: u64) {
    check(l.len() == o.len(), id);
    for (a, b) in l.iter().zip(o) {
        check(std::ptr::eq(a.node(), b.v), id + 1);
        check(path_is(a.location(), &b.path), id + 2);
    }
}

/// the nodes only
pub fn located_nodes_ok(l: LocatedNodeList, o: &[Node], id: u64) {
    check(l.len() == o.len(), id);
    for (a, b) in l.iter().zip(o) {
        check(std::ptr::eq(a.node(), b.v), id + 1);
    }
}

/// acceptance and meaning of one text, against the reference
fn text_vs_reference(t: &str, id: u64) {
    let o = oracle::parse(t);
    if let Err(Bad::Open) = o {
        assume(false);
    }
    let r = JsonPath::parse(t);
    observe(1, r.is_ok() as u64);
    check(r.is_ok() == o.is_ok(), id);
    if let (Ok(r), Ok(o)) = (r, o) {
        reach(1);
        let d = probe();
        let want = nodes_ok(r.query(&d), &o, &d, id + 1);
        observe(2, want.len() as u64);
        for (i, d) in crate::witness::witnesses(&o).iter().enumerate() {
            let want = nodes_ok(r.query(d), &o, d, id + 3);
            observe(3 + i as u64, want.len() as u64);
        }
    } else {
        reach(2);
    }
}

macro_rules! templates {
    ($n:ident: $($t:expr),* $(,)?) => { static $n: &[&[u8]] = &[$($t),*]; };
}

templates! { SEG:
    b"$\xf0\x01\x80",
    b"$\xf0\x02\x80",
    b"$\xf0\x03\x80",
    b"$\xf0\x04\x80",
    b"$\xf0\x05\x81",
    // 5: brackets
    b"$[\xf0\x03\x80]",
    b"$[\xf0\x05\x81]",
    b"$[\x80\x80'a'\x80\x80]",
    b"$['a'\x80\x80\x80'b']",
    b"$[*\x80\x80\x80]",
    // 10: descendants, shorthands and blanks
    b"$..\xf0\x03\x80",
    b"$.\xf0\x04\x84",
    b"$.a\xf0\x03\x84",
    b"$\x80\x80..\x80a",
    b"$\x80\x80.\x80a",
    b"$\x80\x80[\x80'a'\x80].a",
    b"$..\x80[\x80'a'\x80]",
    // 17: slices
    b"$.a[\x89:\x89:\x89]",
    b"$.a[\x89\x89:\x89\x89]",
    b"$.a[\x831\x83:\x832\x83:\x831\x83]",
    b"$.a[\x80:\x80\x80]",
    b"$.a[:\x80\x80:\x80\x80]",
    // 22: several selectors and segments
    b"$[0\x80,\x800\x80,\x80'a'\x80]",
    b"$['a'\x80\x80'b'\x80\x80]",
    b"$.a\x80\x80\x80.a",
    b"$.a[\x80\x80][\x80]",
    b"$[\"\x80\x80\x80\"]",
    b"$..a\x80\x80\x80",
    b"\x80\x80\x80",
    b"$[?@.a]\x80\x80",
    b"$.b.\x80\x80['\x80']",
    // 31: longer
    b"$\xf0\x06\x81",
    b"$[\xf0\x06\x81]",
    b"$\xf0\x05\x80",
    b"$..\xf0\x04\x80",
    b"$[\xf0\x04\x80]",
    b"$[\xf0\x07\x81]",
    b"$\xf0\x07\x81",
    // 38: before and after
    b"\xf0\x03\x84$.a",
    b"\x84$.a\x84\x84",
    // 40: longer names, many selectors, many segments
    b"$._\xf0\x04\x80",
    b"$.._\xf0\x03\x80",
    b"$..abcdefgh\x80jk_mnop9\x80",
    b"$.b['c','a','d','b','c','e','f','a','g','b','h'\x80'i\x80]",
    b"$.a[0,1,*,0:2,-1,3,2,1,0,\x80,\x80,\x80]",
    b"$.a.b.c.d.e.f.g.h.\x80\x80[\x80].k",
    b"$..a..b[*].c..\x80.d[\x80]..e",
    b"$['a\xf0\x03\x84']",
    b"$['a']['b'][0][1]['c'][\x80][*]['\x80'][::\x80]",
    b"$[?@.a].b[?@.c\x80].\x80",
}
/// C01 grammar of segments and selectors
pub fn h_seg() {
    let v = text(SEG[param(0)]);
    text_vs_reference(as_str(&v), 100);
}

templates! { FIL:
    b"$[?\xf0\x03\x80]",
    b"$[?\xf0\x05\x8a]",
    b"$[?@\xf0\x03\x80]",
    b"$[?@\xf0\x05\x8a]",
    // 4: operators and precedence
    b"$..[?@.a\x80\x80@.b]",
    b"$..[?@.a\x80\x80\x80@.b]",
    b"$..[?@.a\x86\x86@.b\x86\x86@.c]",
    b"$..[?@.a\x86\x86\x86\x86@.b]",
    b"$..[?\x86@.a\x86\x86@.b\x86\x86@.c]",
    b"$..[?\x86@.a\x86\x86\x86@.b\x86\x86@.c\x86]",
    b"$[?(\x80@.a\x80)\x80]",
    b"$[?\x80(\x80@.a)]",
    b"$[?\x80!\x80@.a\x80]",
    // 13: comparables
    b"$..[?\xf0\x03\x80==1]",
    b"$..[?1==\xf0\x03\x80]",
    b"$..[?@.a=='\x80\x80']",
    b"$..[?@.a\x80\x80\x801]",
    b"$..[?@.a==\xf0\x04\x80]",
    b"$..[?\xf0\x04\x80==@.a]",
    b"$..[?@\x80\x80\x80==1]",
    b"$..[?true\x80\x80\x80true]",
    b"$..[?null\x80\x80@.b]",
    b"$..[?@.a==fals\x80\x80]",
    b"$..[?@.a\x83==\x831]",
    b"$..[?\x83@.a\x83||\x83@.b\x83&&\x83@.c\x83]",
    // 25: functions: names, blanks, arguments
    b"$..[?length(@.a)\x80\x80\x80]",
    b"$..[?length(\x80\x80@.a\x80\x80)==1]",
    b"$..[?count\x80(@\x80\x80)==1]",
    b"$..[?coun\x80(@.*)==1]",
    b"$..[?\x80ength(@.a)==1]",
    b"$..[?value(@\x80\x80\x80)==1]",
    b"$..[?length(\xf0\x04\x80)==1]",
    b"$..[?count(\xf0\x04\x8a)==1]",
    b"$..[?\x80value(@.a)\x80\x801]",
    b"$..[?1==length(\x80\x80\x80)]",
    b"$..[?count(@.a\x80\x80@.b)==1]",
    b"$..[?length(value(\x80\x80\x80))==1]",
    // 37: nesting
    b"$[?@[?\x80\x80\x80]]",
    b"$..[?@[?@.a\x80\x80]\x80\x80]",
    b"$[?$\x80\x80\x80]",
    b"$[?@.a[\x80\x80\x80]==1]",
    b"$[?@.a,\x80\x80\x80@.b]",
    // 42: longer
    b"$[?\xf0\x06\x8a]",
    b"$[?\xf0\x04\x80]",
    b"$[?@\xf0\x06\x8a]",
    b"$..[?@.a\x86\x86\x86@.b\x86\x86\x86@.c]",
    // 45: more terms
    b"$..[?@.a\x86\x86@.b\x86\x86@.c\x86\x86@.d]",
    b"$[?@.a\x86\x86@.b\x86\x86@.c\x86\x86@.d\x86\x86@.e]",
    b"$[?1\x80\x80\x80@.a]",
    b"$[?'b'\x80\x80@.a]",
    b"$[?length(@.a)\x80\x80count(@.*)]",
    b"$[?@.a\x80\x80length(@.b)]",
    b"$[?$.a\x80\x80@.b]",
    b"$[?value(@.a)\x80\x80'x']",
    b"$[?(((@.a\x86\x86@.b)\x86\x86@.c)\x86\x86@.d)]",
    b"$[?@.a==1\x86\x86@.b<2\x86\x86!@.c\x86\x86(@.d\x86\x86@.e)\x86\x86@.f]",
    b"$[?@.a==1,?@.b\x80\x80\x802,'\x80',?!@.\x80]",
    b"$[?@['a']['b'][0]\x80\x80\x80@.c]",
    b"$[?@.a[?@.b\x80\x80@.c]\x86\x86@.d]",
    b"$[?true\x80\x80@.a]",
    b"$[?@.a\x80\x80null]",
    b"$[?!!\x80@.a]",
    b"$[?@.a\x86\x86!\x86@.b\x86\x86@.c]",
    // 62: logical arguments
    b"$[?neg(@.a\x86\x86@.b\x86\x86@.c)]",
    b"$[?neg(1\x86\x86@.a\x86\x86@.b==2)]",
    b"$[?late9(@.a\x86\x86count(@.*)\x86\x86 1, !@.b\x86\x86@.c)]",
    b"$[?neg(has(@.*)\x86\x86@.a==1\x86\x86@.b)]",
    b"$[?neg((@.a)\x80\x80@.b)]",
}
/// C02 grammar, precedence and typing of filters
pub fn h_fil() {
    let v = text(FIL[param(0)]);
    text_vs_reference(as_str(&v), 200);
}

static FNAMES: &[&str] = &["length", "count", "value", "match", "search", "nope"];
static FARGS: &[&str] = &[
    "", "@", "@.a", "$.b.a", "@.*", "@..a", "@[0,1]", "@[0]", "@[0:1]", "@['a','b']", "@[?@.a]", "1", "'a'", "null", "true", "@.a==1", "!@.a",
    "(@.a)", "length(@)", "count(@.*)", "value(@.*)", "match(@,'a')", "@.a||@.b", "@,@", "@,'a'", "@.a,@.b", "@.*,'a'", "'a','a','a'", "match(@,@),'a'", "'a',length(@)",
    "length('a')", "value(@)", "nope(@)", "length()", "@.a.b", "@ .a", "@[-1]", "-1", "1.5",
];
/// C02 typing of the standard functions: every function x argument list x use
pub fn h_types() {
    let f = FNAMES[pick(FNAMES.len())];
    let u = pick(9);
    let a = FARGS[pick(FARGS.len())];
    let call = format!("{f}({a})");
    let t = match u {
        0 => format!("$..[?{call}]"),
        1 => format!("$..[?!{call}]"),
        2 => format!("$..[?{call}==1]"),
        3 => format!("$..[?1 < {call}]"),
        4 => format!("$..[?{call}=={call}]"),
        5 => format!("$..[?({call})&&@.a]"),
        6 => format!("$..[?length({call})==1]"),
        7 => format!("$..[?count({call})==1]"),
        _ => format!("$..[?match({call},'a')]"),
    };
    let o = oracle::parse(&t);
    let r = JsonPath::parse(&t);
    observe(1, r.is_ok() as u64);
    check(r.is_ok() == o.is_ok(), 210);
    reach(if r.is_ok() { 1 } else { 2 });
}

templates! { NUMS:
    b"\xf0\x03\x85",
    b"\xf0\x04\x85",
    b"-\xf0\x03\x85",
    b"0\xf0\x03\x85",
    b"1\xf0\x04\x85",
    b"\x82.\x82e\x85\x82",
    b"\xf0\x05\x85",
    b"-0.\x85\x85\x85",
    b"\x85\x821e1\x82",
    b"\xf0\x06\x85",
}
/// C04 number literals: acceptance, and the value compared with
pub fn h_num() {
    let n = text(NUMS[param(0)]);
    let mut t = b"$[?@==".to_vec();
    t.extend_from_slice(&n);
    t.push(b']');
    let t = as_str(&t);
    let o = oracle::parse(t);
    if let Err(Bad::Open) = o {
        assume(false);
    }
    let r = JsonPath::parse(t);
    observe(1, r.is_ok() as u64);
    check(r.is_ok() == o.is_ok(), 400);
    if let (Ok(r), Ok(o)) = (r, o) {
        reach(1);
        let v: Value = serde_json::from_slice(&n).unwrap();
        let far = v.as_f64().unwrap();
        let far = if far == 0.0 { 1.0 } else { -far };
        let d = Value::Array(vec![v, Value::from(far), Value::Null]);
        let want = nodes_ok(r.query(&d), &o, &d, 402);
        check(want.len() == 1, 401);
    } else {
        reach(2);
    }
}

/// C04 integers in index and slice selectors: any digits up to 17 places
pub fn h_int() {
    let (n, form) = (param(0), param(1));
    let mut t = match form {
        0 => b"$[".to_vec(),
        1 => b"$[-".to_vec(),
        2 => b"$[:".to_vec(),
        3 => b"$[::-".to_vec(),
        4 => b"$[-".to_vec(),
        5 => b"$[?@[".to_vec(),
        _ => b"$[1,".to_vec(),
    };
    let from = t.len();
    // the first digits may be those of 2^53, the rest are any digits
    t.extend_from_slice(&b"9007199254740992"[..param(2)]);
    while t.len() < from + n {
        let b = byte();
        assume(among(b, class(DIGIT)));
        t.push(b);
    }
    t.extend(match form {
        4 => b":]".as_slice(),
        5 => b"]==1]",
        _ => b"]",
    });
    // valid exactly when there is no leading zero and the magnitude is below 2^53
    let neg = t[from - 1] == b'-';
    let Ok(v) = as_str(&t[from - neg as usize..from + n]).parse::<i64>() else {
        check(false, 411);
        return;
    };
    let zero = (n == 1) & !neg;
    let ok = ((t[from] != b'0') | zero) & (v >= -oracle::MAXI) & (v <= oracle::MAXI);
    let r = JsonPath::parse(as_str(&t)).is_ok();
    check(r == ok, 410);
    reach(if r { 1 } else { 2 });
}
/// C04 the index read is the index used: $[n] on a concrete array
pub fn h_intval() {
    let n = param(0);
    let mut t = b"$[".to_vec();
    let neg = flag();
    if neg {
        t.push(b'-');
    }
    let from = t.len();
    for _ in 0..n {
        let b = byte();
        assume(among(b, class(DIGIT)));
        t.push(b);
    }
    assume((t[from] != b'0') | ((n == 1) & !neg));
    let mut v = 0i64;
    for &b in &t[from..] {
        v = v * 10 + (b - b'0') as i64;
    }
    t.push(b']');
    let len = 13i64;
    let d = Value::Array((0..len).map(|_| Value::Null).collect());
    let r = JsonPath::parse(as_str(&t));
    check(r.is_ok(), 420);
    let r = r.unwrap();
    let l = r.query(&d).all();
    let i = if neg { len - v } else { v };
    let inside = (i >= 0) & (i < len);
    check((l.len() == 1) == inside, 421);
    if l.len() == 1 {
        reach(1);
        let off = (l[0] as *const Value as usize - &d[0] as *const Value as usize) / std::mem::size_of::<Value>();
        check(off as i64 == i, 422);
    } else {
        reach(2);
    }
}

templates! { TOT:
    b"\xf0\x03\x84",
    b"\xf0\x04\x84",
    b"$\xf0\x04\x84",
    b"$[\xf0\x04\x84",
    b"$[?\xf0\x03\x84",
    // 5: truncated tokens
    b"$[\"\\u\xf0\x03\x84",
    b"$['\\uD8\xf0\x03\x84",
    b"$['\\uD83D\\u\xf0\x03\x84",
    b"$['\\\xf0\x04\x84",
    b"$[?@.a==\"\xf0\x03\x84",
    b"$[?@.a==\xf0\x03\x84",
    b"$[?length(\xf0\x03\x84",
    b"$[?match(@,'\xf0\x03\x84",
    b"$[?@.a \xf0\x03\x84",
    b"$[?!\xf0\x03\x84",
    b"$[?(\xf0\x03\x84",
    b"$.a..\xf0\x03\x84",
    b"$[1:\xf0\x03\x84",
    b"$['a',\xf0\x03\x84",
    b"$[?@.a==-\xf0\x03\x84",
    b"$[?@.a==1\xf0\x03\x85]",
    b"$[99999999999999999\xf0\x02\x84",
    b"$[?@.a==1e\xf0\x03\x82]",
    b"$[?@==9999999999999999999\xf0\x03\x85]",
    b"$\xf0\x05\x84",
    b"$[?\xf0\x04\x84",
    b"$['\xf0\x05\x84",
    // 27
    b"\xf0\x02\x84$.a\xf0\x02\x84",
    b"$.a[?@.b==1 && nope(\xf0\x02\x84",
    b"$.a[?@.b==\x84 && length(@.*)\x84",
    b"$.\xf1\xc3\xf1\xa9\xf0\x03\x84",
    b"$['\xf1\xc3\xf1\xa9\xf1\xf0\xf1\x9f\xf1\x98\xf1\x80\xf0\x02\x84",
    b"$[?@['\xf1\xe2\xf1\x82\xf1\xac']\xf0\x03\x84",
    b"$[?count(@.a,\xf0\x02\x84)]",
    b"$[?id(\xf0\x02\x84)==true_count(\x84",
    b"$[-\xf0\x03\x84]",
    b"$..\xf0\x03\x84",
}
/// C05 parsing is total: no panic, and an error points into the text
pub fn h_total() {
    let v = text(TOT[param(0)]);
    let t = as_str(&v);
    match JsonPath::parse(t) {
        Ok(_) => {
            reach(1);
            observe(1, 1);
        }
        Err(e) => {
            reach(2);
            observe(1, 0);
            let p = e.position();
            observe(2, p as u64);
            check(p <= t.len(), 500);
            check(t.is_char_boundary(p), 501);
            check((p == 0) | t.starts_with('$'), 504);
            check(!e.message().is_empty(), 502);
            let s = e.to_string();
            let mut want = b"at position ".to_vec();
            oracle::decimal(p, &mut want);
            want.extend(b", ");
            want.extend(e.message().as_bytes());
            check(s.as_bytes() == &want[..], 503);
            if p == 0 {
                // documented to be 1-indexed
                finding(9101);
            }
        }
    }
}

/// C15 a parsed query prints as text that parses to the same query, and
/// serializes as that text
pub fn round_trip(t: &str, regex: bool) {
    let Ok(p) = JsonPath::parse(t) else {
        assume(false);
        return;
    };
    reach(1);
    let s = p.to_string();
    observe(1, s.len() as u64);
    match serde_json::to_value(&p) {
        Ok(Value::String(j)) => check(j == s, 1505),
        _ => check(false, 1506),
    }
    let q = JsonPath::parse(&s);
    let same = q.as_ref().map_or(false, |q| *q == p && q.to_string() == s);
    if !same {
        // as recorded, and for the recorded reasons, or not at all
        if let Ok(o) = oracle::parse(t) {
            let (w, noted) = oracle::printed(&o);
            if noted != 0 && s.as_bytes() == &w[..] {
                oracle::raise(noted);
                return;
            }
        }
    }
    check(q.is_ok(), 1500);
    let q = q.unwrap();
    check(q == p, 1501);
    check(q.to_string() == s, 1502);
    let d = probe();
    let a = p.query(&d).all();
    let b = q.query(&d).all();
    check(a.len() == b.len(), 1503);
    for i in 0..a.len() {
        check(std::ptr::eq(a[i], b[i]), 1504);
    }
    if regex {
        return; // the reference evaluates few regular expressions
    }
    // the meaning of the printed text, by the reference
    match oracle::parse(&s) {
        Ok(o) => {
            nodes_ok(p.query(&d), &o, &d, 1507);
            if s.len() < 300 {
                for d in crate::witness::witnesses(&o) {
                    nodes_ok(p.query(&d), &o, &d, 1510);
                }
            }
        }
        Err(_) => check(false, 1509),
    }
}
templates! { RT:
    b"$[\xf0\x04\x81]",
    b"$\xf0\x04\x81",
    b"$['\xf0\x03\x84']",
    b"$[\"\xf0\x03\x84\"]",
    b"$..[?@.a=='\xf0\x02\x84']",
    b"$..[?@['\xf0\x02\x84']==\"a\"]",
    b"$['\\\x80\x80\x80']",
    b"$['\\u00\x80\x80']",
    b"$[?\x80@.a\x80\x80@.b]",
    b"$..[?@.a==\x85\x85\x85]",
    b"$..[?\x86(@.a\x86\x86@.b)\x86\x86@.c]",
    b"$..[?\x80value(@.\x80)==1]",
    b"$..[?\x80match(@.a,'a\x80')]",
    b"$..[?length('\x84\x84')==\x80]",
    b"$.a[\x89\x89:\x89:\x89]",
    b"$.a[1:\x89\x89:\x89]",
    b"$..[?@[\x89\x89]\x86\x86$.b[\x89]]",
    b"$.a\x80\x80[\x80,\x80]",
    b"$..[?count(@[\x80,\x80])\x86\x862]",
    b"$[?@[?@.a\x86\x86@.b]\x86\x86@.c]",
    b"$.\xf0\x03\x84",
    b"$..[?!\x86@.a\x86\x86@.b]",
    b"$[?@\x80\x80\x80]",
    b"$[?\xf0\x04\x8a]",
    b"$['\xf0\x05\x84']",
    b"$\xf0\x05\x81",
    b"$[\xf0\x05\x81]",
    // 27: longer
    b"$.a[0,1:\x82,*,-\x82,::-1,'a',\x82]..b[\x82:]['c'].*",
    b"$[?@.a\x86\x86@.b\x86\x86@.c\x86\x86@.d]",
    b"$[?(@.a&&(@.b||\x86(@.c\x86\x861)))||\x86@.d]",
    b"$..[?@.a[0]['b']\x86\x86$['c'][\x82]&&count(@[*,\x82:])\x86\x862]",
    b"$[?@.a==1,?@.b\x86\x862,'\x88',?!@.\x88]",
    b"$[?@.a[?@.b\x86\x86@.c]\x86\x86@[?\x86@.d]]",
    b"$[?length(value(@[\x81,*]))\x86\x86count(@..\x81)]",
    b"$[?'\x84'\x86\x86@.a||null==@['\x84']&&true!=@.b]",
    b"$._\xf0\x04\x80",
}
pub fn h_rt() {
    let t = RT[param(0)];
    let v = text(t);
    let regex = t.windows(5).any(|w| w == b"match");
    // the digits of a number literal are decided one by one: printing a
    // double is no business of this property
    if t.windows(3).any(|w| w == b"==\x85") {
        for &b in &v {
            conc(b as u64);
        }
    }
    round_trip(as_str(&v), regex);
}

templates! { SAME:
    b"$\xf0\x03\x80",
    b"$[\xf0\x03\x81]",
    b"$..[?@.a\x86\x861]",
    b"\xf0\x03\x84",
    b"$['\xf0\x03\x84']",
    b"$\xf0\x04\x81",
    b"$[?@.a\x86\x86@.b\x86\x86@.c]",
    b"\x84$.a\x84\x84",
    b"\x84$\x84",
    b"$[\x89\x89:\x89,'\x84']",
    b"$[?@.a\x86\x86'\x84']",
    b"$[?\xf0\x04\x8a]",
    // 12: whole characters before and after, which no entry point may drop
    b"\xf0\x03\x84$.a",
    b"$.a\xf0\x03\x84",
    b"$[\xf0\x03\x840]",
    b"\x80",
}
/// C19 every way of building and applying a query agrees, and none of them
/// has a memory
pub fn h_same() {
    let v = text(SAME[param(0)]);
    let t = as_str(&v);
    let p = JsonPath::parse(t);
    let f = JsonPath::from_str(t);
    let f2 = t.parse::<JsonPath>();
    let g: Result<JsonPath, _> = serde_json::from_value(Value::String(t.to_string()));
    observe(1, p.is_ok() as u64);
    check(p.is_ok() == f.is_ok(), 1900);
    check(p.is_ok() == f2.is_ok(), 1901);
    check(p.is_ok() == g.is_ok(), 1902);
    match (p, f, f2, g) {
        (Ok(p), Ok(f), Ok(f2), Ok(g)) => {
            reach(1);
            check((p == f) & (p == f2) & (p == g), 1903);
            let d = probe();
            let a = p.query(&d).all();
            let c = p.clone();
            for d in crate::witness::witnesses(&oracle::parse(t).unwrap_or(oracle::Query { root: true, segs: vec![] })) {
                let a = p.query(&d).all();
                for l in [f.query(&d).all(), f2.query(&d).all(), d.json_path(&g).all()] {
                    check(l.len() == a.len(), 1911);
                    for i in 0..a.len() {
                        check(std::ptr::eq(l[i], a[i]), 1912);
                    }
                }
            }
            let other = serde_json::json!([1, [2], {"a": 3}]);
            let n1 = p.query(&other).len();
            for l in [p.query(&d).all(), c.query(&d).all(), g.query(&d).all(), d.json_path(&p).all()] {
                check(l.len() == a.len(), 1904);
                for i in 0..a.len() {
                    check(std::ptr::eq(l[i], a[i]), 1905);
                }
            }
            check(p.query(&other).len() == n1, 1906);
            for d in [Value::Null, Value::Bool(true), Value::from(0), Value::from(""), serde_json::json!([]), serde_json::json!({})] {
                let (a, b) = (p.query(&d).all(), d.json_path(&p).all());
                check(a.len() == b.len(), 1913);
                for i in 0..a.len() {
                    check(std::ptr::eq(a[i], b[i]), 1914);
                }
            }
            check(c == p, 1907);
        }
        (Err(a), Err(b), Err(c), Err(g)) => {
            reach(2);
            check((a.position() == b.position()) & (a.position() == c.position()), 1908);
            check((a.message() == b.message()) & (a.message() == c.message()), 1909);
            check(g.to_string() == a.to_string(), 1910);
        }
        _ => {}
    }
}
pub fn total_text(i: usize) -> Vec<u8> {
    text(TOT[i])
}
pub fn same_text(i: usize) -> Vec<u8> {
    text(SAME[i])
}
