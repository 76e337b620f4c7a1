//! C13, C14, C16: large indices, the order of locations, lists as iterators and
//! as JSON.
use crate::grammar::*;
use crate::oracle::{self, Elem};
use crate::sym::*;
use serde_json::{json, Map, Value};
use serde_json_path::{JsonPath, LocatedNode, NormalizedPath};
use serde_json_path_core::spec::integer::Integer;
use serde_json_path_core::spec::query::Queryable;
use serde_json_path_core::spec::selector::index::Index;
use std::cmp::Ordering;

fn nulls(n: usize) -> Value {
    Value::Array(vec![Value::Null; n])
}
/// the node at any index below n of an array of n elements
fn any_of<'a>(d: &'a Value, n: usize) -> (LocatedNode<'a>, usize) {
    let i = u64v() as usize;
    assume(i < n);
    let x = Index(Integer::try_from(i as i64).unwrap());
    let mut l = x.query_located(d, d, Default::default());
    check(l.len() == 1, 1340);
    (l.pop().unwrap(), i)
}
/// C13 the text of any index of an array of n elements. param: n
pub fn h_idxtext() {
    let n = param(0);
    let d = nulls(n);
    let (l, i) = any_of(&d, n);
    let p = l.location();
    check(p.len() == 1 && p.first().unwrap().as_index() == Some(i), 1341);
    let s = p.to_string();
    observe(1, s.len() as u64);
    check(s.as_bytes() == &oracle::normalized(&[Elem::Idx(i)])[..], 1342);
    let mut w = vec![];
    oracle::decimal(i, &mut w);
    check(p.first().unwrap().to_string().as_bytes() == &w[..], 1343);
    check(matches!(serde_json::to_value(p), Ok(Value::String(t)) if t == s), 1344);
    check(matches!(serde_json::to_value(p.first().unwrap()), Ok(Value::Number(t)) if t.as_u64() == Some(i as u64)), 1345);
    reach(1);
}
/// C14 likewise its JSON Pointer
pub fn h_idxptr() {
    let n = param(0);
    let d = nulls(n);
    let (l, i) = any_of(&d, n);
    let s = l.location().to_json_pointer();
    observe(1, s.len() as u64);
    check(s.as_bytes() == &oracle::pointer(&[Elem::Idx(i)])[..], 1420);
    reach(1);
}
/// C12–C14, C16: chosen indices of a large array through query texts
pub fn h_bigidx() {
    let n = 1012;
    let d = nulls(n);
    let at = [0usize, 9, 10, 11, 99, 100, 101, 110, 999, 1000, 1001, 1010, 1011];
    let (a, b) = (pick(at.len()), pick(at.len()));
    let (i, j) = (at[a], at[b]);
    let t = format!("$[{i},-{},{i}]", n - j);
    let l = JsonPath::parse(&t).unwrap().query_located(&d);
    check(l.len() == 3, 1350);
    for (x, i) in l.iter().zip([i, j, i]) {
        check(std::ptr::eq(x.node(), &d[i]), 1351);
        let p = x.location();
        check(p.len() == 1 && p.first().unwrap().as_index() == Some(i), 1352);
        let s = p.to_string();
        check(s == format!("$[{i}]"), 1353);
        check(p.to_json_pointer() == format!("/{i}"), 1354);
        let back = JsonPath::parse(&s).unwrap().query(&d).all();
        check(back.len() == 1 && std::ptr::eq(back[0], x.node()), 1355);
    }
    let (p, q) = (l.get(0).unwrap().location(), l.get(1).unwrap().location());
    check(p.partial_cmp(q) == Some(i.cmp(&j)), 1356);
    check((p == q) == (i == j), 1357);
    let u = l.clone().dedup();
    check(u.len() == if i == j { 1 } else { 2 }, 1358);
    for w in [i, j] {
        check(u.iter().filter(|x| std::ptr::eq(x.node(), &d[w])).count() == 1, 1359);
    }
    let k = pick(3);
    let t = [format!("$[{i}:{}]", j + 1), format!("$[{}:{}]", i as i64 - n as i64, j), format!("$[{i}:{j}:-1]")][k].clone();
    let o = oracle::parse(&t).unwrap();
    let want = oracle::eval(&o, &d);
    let l = JsonPath::parse(&t).unwrap().query_located(&d);
    check(l.len() == want.len(), 1360);
    for e in [0, want.len() / 2, want.len().wrapping_sub(1)] {
        if let (Some(a), Some(b)) = (l.get(e), want.get(e)) {
            check(std::ptr::eq(a.node(), b.v) && path_is(a.location(), &b.path), 1361);
        }
    }
    reach(1);
}

/// the order the elements of locations have: names as strings, indices as
/// numbers, a name and an index not at all
fn order(a: &[Elem], b: &[Elem]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        let o = match (x, y) {
            (Elem::Key(x), Elem::Key(y)) => x.as_bytes().cmp(y.as_bytes()),
            (Elem::Idx(x), Elem::Idx(y)) => x.cmp(y),
            _ => return None,
        };
        if o != Ordering::Equal {
            return Some(o);
        }
    }
    Some(a.len().cmp(&b.len()))
}
/// C16 order and equality of the locations of any two indices
pub fn h_idxord() {
    let n = param(0);
    let d = nulls(n);
    let (a, i) = any_of(&d, n);
    let (b, j) = any_of(&d, n);
    let (p, q) = (a.location(), b.location());
    check((p == q) == (i == j), 1695);
    let c = p.partial_cmp(q);
    check((c == Some(Ordering::Less)) == (i < j), 1696);
    check((c == Some(Ordering::Greater)) == (i > j), 1697);
    check((c == Some(Ordering::Equal)) == (i == j), 1698);
    check((p < q) == (i < j) && (p >= q) == (i >= j), 1699);
    reach(1);
}
/// C16 order and equality of the locations under symbolic names. params: bytes
/// of the two names
pub fn h_ord() {
    let (n, m) = (param(0), param(1));
    let (a, b) = (string(n), string(m));
    assume(a != b);
    let mut o = Map::new();
    o.insert(a.clone(), json!([0, 1]));
    o.insert(b.clone(), json!({"": 0, "x": [2]}));
    let d = Value::Array(vec![Value::Object(o), json!([[3], {"0": 4}])]);
    let w = oracle::eval(&oracle::parse("$..*").unwrap(), &d);
    let l = JsonPath::parse("$..*").unwrap().query_located(&d).all();
    check(l.len() == w.len(), 1550);
    for i in 0..l.len() {
        check(path_is(l[i].location(), &w[i].path), 1551);
        for j in 0..l.len() {
            let (p, q) = (l[i].location(), l[j].location());
            check((p == q) == (i == j), 1552);
            check(p.partial_cmp(q) == order(&w[i].path, &w[j].path), 1553);
        }
    }
    reach(1);
}

static LISTS: &[&str] = &["$[9]", "$[0]", "$[0,1]", "$[1,0,1]", "$[*]", "$[::-1]", "$[*,*]", "$..[0]", "$..*", "$"];
fn pool() -> Value {
    match pick(2) {
        0 => json!([1, [7, "s"], {"a": 1}, null]),
        _ => json!([[0, 0], {"a": [3], "b": {"a": 1}}, {"a": 2}]),
    }
}
/// C16 what the iterators of lists give by their other methods, and the lists as JSON
pub fn h_iters2() {
    let t = LISTS[param(0)];
    let d = pool();
    let want = oracle::eval(&oracle::parse(t).unwrap(), &d);
    let n = want.len();
    let p = JsonPath::parse(t).unwrap();
    let l = p.query_located(&d);
    let m = p.query(&d);
    check((l.len() == n) & (m.len() == n), 1560);
    let k = pick(n + 2);
    let is = |v: Option<&Value>, i: usize| match v {
        Some(v) => i < n && std::ptr::eq(v, want[i].v),
        None => i >= n,
    };
    let at = |v: Option<&NormalizedPath>, i: usize| match v {
        Some(v) => i < n && path_is(v, &want[i].path),
        None => i >= n,
    };
    let rev = |i: usize| if i < n { n - 1 - i } else { n };
    // locations
    check(at(l.locations().nth(k), k), 1561);
    check(at(l.locations().nth_back(k), rev(k)), 1562);
    check(at(l.locations().rev().nth(k), rev(k)), 1563);
    check(at(l.locations().last(), if n == 0 { 0 } else { n - 1 }), 1564);
    check(l.locations().count() == n && l.locations().rev().count() == n, 1565);
    check(l.locations().skip(k).count() == n.saturating_sub(k), 1566);
    check(at(l.locations().step_by(2).nth(k), 2 * k), 1567);
    check(l.locations().fold(0, |i, x| if at(Some(x), i) { i + 1 } else { 1000 }) == n, 1568);
    check(l.locations().rfold(0, |i, x| if at(Some(x), rev(i)) { i + 1 } else { 1000 }) == n, 1569);
    let mut it = l.locations();
    it.nth(k);
    check(it.len() == n.saturating_sub(k + 1), 1570);
    check(it.size_hint() == (it.len(), Some(it.len())), 1571);
    // nodes
    check(is(l.nodes().nth(k), k), 1572);
    check(is(l.nodes().nth_back(k), rev(k)), 1573);
    check(is(l.nodes().rev().nth(k), rev(k)), 1574);
    check(is(l.nodes().last(), if n == 0 { 0 } else { n - 1 }), 1575);
    check(l.nodes().count() == n && l.nodes().rev().count() == n, 1576);
    check(is(l.nodes().step_by(2).nth(k), 2 * k), 1577);
    check(l.nodes().fold(0, |i, x| if is(Some(x), i) { i + 1 } else { 1000 }) == n, 1578);
    check(l.nodes().rfold(0, |i, x| if is(Some(x), rev(i)) { i + 1 } else { 1000 }) == n, 1579);
    let mut it = l.nodes();
    it.nth_back(k);
    check(it.len() == n.saturating_sub(k + 1), 1580);
    check(it.size_hint() == (it.len(), Some(it.len())), 1581);
    // the lists themselves
    check(is(m.iter().nth(k).copied(), k), 1582);
    check(is(m.iter().nth_back(k).copied(), rev(k)), 1583);
    check(is(m.clone().into_iter().nth(k), k), 1584);
    check(is(m.clone().into_iter().nth_back(k), rev(k)), 1585);
    check(is(l.iter().nth(k).map(|x| x.node()), k) && at(l.iter().nth_back(k).map(|x| x.location()), rev(k)), 1586);
    check(at(l.clone().into_iter().nth(k).as_ref().map(|x| x.location()), k), 1587);
    check(at(l.clone().into_iter().nth_back(k).as_ref().map(|x| x.location()), rev(k)), 1588);
    // as JSON
    let mut w = vec![];
    for x in &want {
        let s = String::from_utf8(oracle::normalized(&x.path)).unwrap();
        w.push(json!({"loc": s, "node": x.v}));
    }
    if let Some(x) = l.first() {
        check(serde_json::to_value(x).ok().as_ref() == w.first(), 1589);
    }
    check(serde_json::to_value(&l).ok() == Some(Value::Array(w)), 1590);
    check(serde_json::to_value(&m).ok() == Some(Value::Array(want.iter().map(|x| x.v.clone()).collect())), 1591);
    // the reasons given tell how many there are
    if n > 1 {
        let mut s = vec![];
        oracle::decimal(n, &mut s);
        let s = as_str(&s);
        check(m.at_most_one().err().map_or(false, |e| e.to_string().contains(s)), 1592);
        check(m.exactly_one().err().map_or(false, |e| e.to_string().contains(s)), 1593);
        check(l.clone().at_most_one().err().map_or(false, |e| e.to_string().contains(s)), 1594);
        check(l.clone().exactly_one().err().map_or(false, |e| e.to_string().contains(s)), 1595);
    }
    // equality
    let other = p.query(&d);
    check(other == m, 1596);
    check(p.query_located(&d) == l, 1597);
    if n > 0 {
        let cut = JsonPath::parse("$[?@.nothing]").unwrap();
        check(cut.query(&d) != m && cut.query_located(&d) != l, 1598);
    }
    reach(if n > 1 { 1 } else { 2 });
}

/// C05: what is wrong is where it is, whatever comes before it: behind some segments
/// the same error is found as many bytes further on
pub fn h_errpos() {
    const BEFORE: [&str; 5] = ["['\u{e9}\u{1F600}']", ".a", "[?@.b=='\u{20ac}']", "..\u{e9}[0, 1:2]", "[?count(@.*)>1||!neg(@.a)]"];
    let v = crate::grammar::total_text(param(0));
    let p = BEFORE[param(1)];
    let r = as_str(&v[1..]);
    let t = ["$", p, r].concat();
    let (a, b) = (JsonPath::parse(as_str(&v)), JsonPath::parse(&t));
    observe(1, a.is_ok() as u64);
    match (a, b) {
        (Ok(_), Ok(_)) => reach(1),
        (Err(a), Err(b)) => {
            reach(2);
            observe(2, b.position() as u64);
            check(b.position() <= t.len(), 505);
            check(t.is_char_boundary(b.position()), 506);
            check(a.message() == b.message(), 507);
            check(a.position() + p.len() == b.position(), 508);
        }
        _ => check(false, 509),
    }
}

/// C19: whatever JSON a query's text is read from gives that query; anything but a
/// string is refused
pub fn h_serde() {
    let v = crate::grammar::same_text(param(0));
    let t = as_str(&v);
    let p = JsonPath::parse(t);
    observe(1, p.is_ok() as u64);
    // as it is where JSON allows, so that it can be borrowed; and all of it escaped
    let (mut plain, mut escaped) = (String::from("\""), String::from("\""));
    let hex = |d: u16| (if d < 10 { b'0' + d as u8 } else { b'a' + d as u8 - 10 }) as char;
    for c in t.chars() {
        if c == '"' || c == '\\' {
            plain.push('\\');
        }
        if c < ' ' {
            plain.push_str("\\u00");
            plain.push(hex(c as u16 / 16));
            plain.push(hex(c as u16 % 16));
        } else {
            plain.push(c);
        }
        let mut u = [0u16; 2];
        for u in c.encode_utf16(&mut u) {
            escaped.push_str("\\u");
            for k in [12, 8, 4, 0] {
                escaped.push(hex(*u >> k & 15));
            }
        }
    }
    plain.push('"');
    escaped.push('"');
    let all: [Result<JsonPath, serde_json::Error>; 4] = [
        serde_json::from_str(&plain),
        serde_json::from_slice(escaped.as_bytes()),
        serde_json::from_reader(plain.as_bytes()),
        serde_json::from_str::<Vec<Option<JsonPath>>>(&["[", &plain, "]"].concat()).map(|mut l| l.pop().unwrap().unwrap()),
    ];
    match &p {
        Ok(p) => {
            reach(1);
            for q in all {
                check(q.is_ok(), 1920);
                check(q.unwrap() == *p, 1921);
            }
            let s = p.to_string();
            check(serde_json::from_str::<String>(&serde_json::to_string(p).unwrap()).unwrap() == s, 1922);
        }
        Err(e) => {
            reach(2);
            let want = e.to_string();
            for q in all {
                check(q.is_err(), 1923);
                check(q.err().unwrap().to_string().starts_with(&want), 1924);
            }
        }
    }
}
/// JSON that is not a string is not a query, and the default query is `$`
pub fn h_serde2() {
    let k = pick(9);
    let v = match k {
        0 => Value::Null,
        1 => Value::Bool(flag()),
        2 => Value::from(-(byte() as i64) - 1),
        3 => Value::from(u64::MAX - (flag() as u64)),
        4 => Value::from(1.5),
        5 => Value::Array(vec![]),
        6 => Value::Array(vec![Value::from("$")]),
        7 => Value::Object(Map::new()),
        _ => {
            let mut m = Map::new();
            m.insert("$".to_string(), Value::from("$"));
            Value::Object(m)
        }
    };
    reach(1);
    check(serde_json::from_value::<JsonPath>(v.clone()).is_err(), 1930);
    check(serde_json::from_str::<JsonPath>(&v.to_string()).is_err(), 1931);
    let d = JsonPath::default();
    check(d.to_string() == "$", 1932);
    check(d == JsonPath::parse("$").unwrap(), 1933);
    let l = d.query(&v).all();
    check(l.len() == 1 && std::ptr::eq(l[0], &v), 1934);
}
