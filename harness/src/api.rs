//! C16, C17, C18, C20: the programming interface around a query.
use crate::docs::{kind_value, KINDS};
use crate::grammar::*;
use crate::oracle::{self, Data, FnDef, Ty};
use crate::sym::*;
use serde_json::{json, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::{JsonPath, JsonPathExt, LocatedNode, LocatedNodeList, NodeList, NormalizedPath};
use serde_json_path_core::spec::functions::{FunctionArgType, JsonPathType, JsonPathValue};
use serde_json_path_core::spec::integer::{Integer, IntegerError};

// ---------------------------------------------------------------- C16 lists

/// Queries yielding 0..8 nodes, with repetitions and in unusual order
static LISTS: &[&str] = &["$[9]", "$[0]", "$[0,1]", "$[1,0,1]", "$[*]", "$[::-1]", "$[*,*]", "$[2,2,2]", "$..[0]", "$..*", "$[0,0,1,1]", "$[::-1,*]", "$['a','b']", "$..a", "$[?@.a,?@.a]", "$"];
fn pool() -> Value {
    match pick(3) {
        0 => json!([1, 1, {"a": 1}]),
        1 => json!([[0, 0], {"a": [3], "b": {"a": 1}}, {"a": 2}]),
        _ => json!({"a": {"a": 1}, "b": [1, 1]}),
    }
}
/// C16 a NodeList against the plain list of its nodes
pub fn h_list() {
    let t = LISTS[param(0)];
    let d = pool();
    let want: Vec<&Value> = oracle::eval(&oracle::parse(t).unwrap(), &d).into_iter().map(|n| n.v).collect();
    let p = JsonPath::parse(t).unwrap();
    let l: NodeList = p.query(&d);
    let n = want.len();
    observe(1, n as u64);
    check(l.len() == n, 1600);
    check(l.is_empty() == (n == 0), 1601);
    check(l.first().map(|v| v as *const Value) == want.first().map(|v| *v as *const Value), 1602);
    check(l.last().map(|v| v as *const Value) == want.last().map(|v| *v as *const Value), 1603);
    let i = byte() as usize;
    check(l.get(i).is_some() == (i < n), 1604);
    if i < n {
        check(std::ptr::eq(l.get(i).unwrap(), want[i]), 1605);
    }
    let mut k = 0;
    for v in l.iter() {
        check(k < n && std::ptr::eq(*v, want[k]), 1606);
        k += 1;
    }
    check(k == n, 1607);
    k = 0;
    for v in l.clone() {
        check(k < n && std::ptr::eq(v, want[k]), 1608);
        k += 1;
    }
    check(k == n, 1609);
    match l.at_most_one() {
        Ok(None) => check(n == 0, 1610),
        Ok(Some(v)) => check(n == 1 && std::ptr::eq(v, want[0]), 1611),
        Err(e) => check((n > 1) & (e.0 == n), 1612),
    }
    match l.exactly_one() {
        Ok(v) => check(n == 1 && std::ptr::eq(v, want[0]), 1613),
        Err(e) => {
            check(e.is_empty() == (n == 0), 1614);
            check(e.is_more_than_one() == (n > 1), 1615);
            check(e.as_more_than_one() == if n > 1 { Some(n) } else { None }, 1616);
            check(n != 1, 1617);
        }
    }
    let c = l.clone();
    check(c == l, 1618);
    #[allow(deprecated)]
    match c.one() {
        Some(v) => check(n == 1 && std::ptr::eq(v, want[0]), 1619),
        None => check(n != 1, 1620),
    }
    let w = NodeList::from(want.clone());
    check(w == l, 1621);
    match serde_json::to_value(&l) {
        Ok(v) => check(v == Value::Array(want.iter().map(|v| (*v).clone()).collect()), 1622),
        Err(_) => check(false, 1623),
    }
    let a = l.all();
    check(a.len() == n, 1624);
    for i in 0..n {
        check(std::ptr::eq(a[i], want[i]), 1625);
    }
    check(d.json_path(&p).len() == n, 1626);
    reach(if n == 1 { 1 } else { 2 });
}
fn located<'a>(t: &str, d: &'a Value) -> LocatedNodeList<'a> {
    JsonPath::parse(t).unwrap().query_located(d)
}
/// C16 a LocatedNodeList likewise
pub fn h_loclist() {
    let t = LISTS[param(0)];
    let d = pool();
    let want = oracle::eval(&oracle::parse(t).unwrap(), &d);
    let n = want.len();
    let is = |a: &LocatedNode, i: usize| i < n && std::ptr::eq(a.node(), want[i].v) && path_is(a.location(), &want[i].path);
    let l = located(t, &d);
    observe(1, n as u64);
    check(l.len() == n, 1630);
    check(l.is_empty() == (n == 0), 1631);
    check(l.first().map_or(n == 0, |a| is(a, 0)), 1632);
    check(l.last().map_or(n == 0, |a| is(a, n - 1)), 1633);
    let i = byte() as usize;
    check(l.get(i).is_some() == (i < n), 1634);
    if i < n {
        check(is(l.get(i).unwrap(), i), 1635);
    }
    let mut k = 0;
    for a in l.iter() {
        check(is(a, k), 1636);
        k += 1;
    }
    check(k == n, 1637);
    match l.clone().at_most_one() {
        Ok(None) => check(n == 0, 1638),
        Ok(Some(v)) => check(n == 1 && is(&v, 0), 1639),
        Err(e) => check((n > 1) & (e.0 == n), 1640),
    }
    match l.clone().exactly_one() {
        Ok(v) => {
            check(n == 1 && is(&v, 0), 1641);
            let p: NormalizedPath = v.clone().into();
            check(path_is(&p, &want[0].path) && path_is(&v.to_location(), &want[0].path), 1642);
        }
        Err(e) => {
            check(e.is_empty() == (n == 0), 1643);
            check(e.as_more_than_one() == if n > 1 { Some(n) } else { None }, 1644);
            check(n != 1, 1645);
        }
    }
    let v = LocatedNodeList::from(l.clone().all());
    check(v == l, 1646);
    k = 0;
    for a in l.clone() {
        check(is(&a, k), 1647);
        k += 1;
    }
    check(k == n, 1648);
    reach(if n == 1 { 1 } else { 2 });
}
/// C16 the location and node iterators from both ends, in any order
pub fn h_iters() {
    let t = LISTS[param(0)];
    let d = pool();
    let l = located(t, &d);
    let n = l.len();
    let nodes = pick(2) == 1;
    let (mut a, mut b) = (l.locations(), l.nodes());
    let (mut lo, mut hi) = (0, n);
    for _ in 0..n + 1 {
        let left = hi - lo;
        if nodes {
            check((b.len() == left) & (b.size_hint() == (left, Some(left))), 1650);
        } else {
            check((a.len() == left) & (a.size_hint() == (left, Some(left))), 1651);
        }
        let back = pick(2) == 1;
        if left == 0 {
            // fused
            for _ in 0..2 {
                if nodes {
                    check(b.next().is_none() & b.next_back().is_none(), 1652);
                } else {
                    check(a.next().is_none() & a.next_back().is_none(), 1653);
                }
            }
            reach(1);
            return;
        }
        let i = if back {
            hi -= 1;
            hi
        } else {
            lo += 1;
            lo - 1
        };
        let w = l.get(i).unwrap();
        if nodes {
            let g = if back { b.next_back() } else { b.next() };
            check(g.map_or(false, |v| std::ptr::eq(v, w.node())), 1654);
        } else {
            let g = if back { a.next_back() } else { a.next() };
            check(g.map_or(false, |v| std::ptr::eq(v, w.location())), 1655);
        }
        reach(2);
    }
    check(false, 1656);
}
/// C16 deduplication keeps each location exactly once
pub fn h_dedup() {
    let (depth, width) = (param(1), param(2));
    let t = ["$[*,*]", "$..[*,0]", "$[0,1,0]", "$..*", "$[::-1,*]", "$..['a','b',*]", "$[?@.a,?@]", "$[1,0,1,-1]", "$..[-1,*]", "$[*][*,0]", "$.*['a',*,'b']", "$[*,1]['a','b','c','a']", "$[?@,?@].*"][param(0)];
    let p = JsonPath::parse(t).unwrap();
    let d = doc(depth, width, &mut 0);
    let l = p.query_located(&d);
    let before = l.clone().all();
    let mut place = l.clone();
    place.dedup_in_place();
    let u = l.dedup();
    check(place == u, 1660);
    observe(1, u.len() as u64);
    let u = u.all();
    for i in 0..u.len() {
        for j in 0..i {
            check(u[i].location() != u[j].location(), 1661);
            check(!std::ptr::eq(u[i].node(), u[j].node()), 1662);
        }
        check(before.iter().any(|b| std::ptr::eq(b.node(), u[i].node()) && b.location() == u[i].location()), 1663);
    }
    for b in &before {
        check(u.iter().any(|x| std::ptr::eq(x.node(), b.node())), 1664);
    }
    reach(if u.len() < before.len() { 1 } else { 2 });
}
/// C16 deduplication where indices have one and two digits and values repeat
pub fn h_dedup2() {
    let n = 12;
    let d = Value::Array(vec![json!(0); n]);
    let (i, j, k) = (pick(n), pick(n), pick(4) * 3);
    let t = format!("$[{i},{j},{k},{i}]");
    let u = JsonPath::parse(&t).unwrap().query_located(&d).dedup();
    let mut want = vec![i, j, k];
    want.sort();
    want.dedup();
    check(u.len() == want.len(), 1670);
    for w in want {
        check(u.locations().any(|l| l.first().unwrap().as_index() == Some(w)), 1671);
    }
    reach(1);
}
/// C16 normalized paths: accessors, iteration, order and equality
pub fn h_pathapi() {
    let depth = param(0);
    let d = doc(depth, 2, &mut 0);
    let q = JsonPath::parse("$..*").unwrap();
    let o = oracle::eval(&oracle::parse("$..*").unwrap(), &d);
    let l = q.query_located(&d).all();
    check(l.len() == o.len(), 1680);
    for (a, b) in l.iter().zip(&o) {
        let p = a.location();
        let n = b.path.len();
        check((p.len() == n) & (p.is_empty() == (n == 0)), 1681);
        check(p.first() == p.get(0) && p.last() == p.get(n - 1) && p.get(n).is_none(), 1682);
        check(p.get(..).map_or(0, |s| s.len()) == n, 1683);
        let mut k = 0;
        for (e, w) in p.iter().zip(&b.path) {
            match w {
                oracle::Elem::Key(s) => {
                    check(e.is_name() & !e.is_index() & e.as_index().is_none(), 1684);
                    check(e.as_name() == Some(*s) && *e == **s && *e == *s && *e != 0, 1685);
                }
                oracle::Elem::Idx(i) => {
                    check(!e.is_name() & e.is_index() & e.as_name().is_none(), 1686);
                    check(e.as_index() == Some(*i) && *e == *i && *e != *i + 1 && *e != "a", 1687);
                }
            }
            check(p.get(k) == Some(e), 1688);
            k += 1;
        }
        check(p.clone().into_iter().count() == n && k == n, 1689);
        reach(1);
    }
    // siblings are ordered as they are visited
    for i in 1..l.len() {
        let (a, b) = (l[i - 1].location(), l[i].location());
        check(a != b && a.clone() == *a, 1690);
        let c = a.partial_cmp(b);
        check(b.partial_cmp(a) == c.map(|x| x.reverse()), 1691);
        let prefix = |x: &NormalizedPath, y: &NormalizedPath| x.len() < y.len() && x.iter().zip(y.iter()).all(|(p, q)| p == q);
        if prefix(a, b) {
            check(c == Some(std::cmp::Ordering::Less), 1692);
        }
        if a.len() == b.len() && a.len() == 1 {
            check(c == Some(std::cmp::Ordering::Less), 1693);
        }
    }
    let root = JsonPath::parse("$").unwrap().query_located(&d).all();
    check(root[0].location().is_empty() && root[0].location().first().is_none() && root[0].location().last().is_none(), 1694);
}

// ---------------------------------------------------------------- C17 integers

const MAXI: i128 = oracle::MAXI as i128;
fn int_is(r: Result<Integer, IntegerError>, v: i128, ok: bool, id: u64) {
    check(r.is_ok() == ok, id);
    match r {
        Ok(i) => {
            reach(1);
            check(i == v as i64, id + 1);
        }
        Err(e) => {
            reach(2);
            check(matches!(e, IntegerError::OutOfBounds), id + 2);
        }
    }
}
/// C17 conversions into Integer accept exactly the I-JSON range. param: type
pub fn h_intfrom() {
    let inside = |v: i128| (v >= -MAXI) & (v <= MAXI);
    match param(0) {
        0 => {
            let v = i64v();
            int_is(Integer::try_from(v), v as i128, inside(v as i128), 1700);
        }
        1 => {
            let v = u64v();
            int_is(Integer::try_from(v), v as i128, inside(v as i128), 1703);
        }
        2 => {
            let v = u64v() as usize;
            int_is(Integer::try_from(v), v as i128, inside(v as i128), 1706);
        }
        3 => {
            let v = i64v() as isize;
            int_is(Integer::try_from(v), v as i128, inside(v as i128), 1709);
        }
        4 => {
            let v = ((u64v() as u128) << 64 | u64v() as u128) as i128;
            int_is(Integer::try_from(v), v, inside(v), 1712);
        }
        5 => {
            let (h, l) = (u64v(), u64v());
            let v = (h as u128) << 64 | l as u128;
            int_is(Integer::try_from(v), v as i128, (h == 0) & (l <= MAXI as u64), 1715);
        }
        _ => {
            let v = u64v();
            check(Integer::from(v as u8) == v as u8 as i64, 1720);
            check(Integer::from(v as i8) == v as i8 as i64, 1721);
            check(Integer::from(v as u16) == v as u16 as i64, 1722);
            check(Integer::from(v as i16) == v as i16 as i64, 1723);
            check(Integer::from(v as u32) == v as u32 as i64, 1724);
            check(Integer::from(v as i32) == v as i32 as i64, 1725);
            check(Integer::default() == Integer::ZERO && Integer::ZERO == 0, 1726);
            reach(1);
            reach(2);
        }
    }
}
fn any_int() -> (Integer, i128) {
    let v = i64v();
    assume((v as i128 >= -MAXI) & (v as i128 <= MAXI));
    match Integer::try_from(v) {
        Ok(i) => (i, v as i128),
        Err(_) => {
            check(false, 1730);
            (Integer::ZERO, 0)
        }
    }
}
/// C17 arithmetic never leaves the range, and is exact inside of it. param: operation
pub fn h_intops() {
    let (a, x) = any_int();
    let (b, y) = any_int();
    let exact = |r: Option<Integer>, v: i128, id: u64| {
        check(r.is_some() == ((v >= -MAXI) & (v <= MAXI)), id);
        match r {
            Some(i) => {
                reach(1);
                check(i == v as i64, id + 1);
            }
            None => reach(2),
        }
    };
    match param(0) {
        0 => exact(a.checked_add(b), x + y, 1731),
        1 => exact(a.checked_sub(b), x - y, 1733),
        2 => {
            // by each of a spread of concrete factors
            let k = [0i64, 1, -1, 2, -3, 10, 1 << 30, -(1 << 40), oracle::MAXI, -oracle::MAXI][pick(10)];
            exact(a.checked_mul(Integer::try_from(k).unwrap()), x * k as i128, 1735)
        }
        3 => {
            let r = a.abs();
            check(r == (if x < 0 { -x } else { x }) as i64, 1737);
            check(usize::try_from(a).is_ok() == (x >= 0), 1738);
            if let Ok(u) = usize::try_from(a) {
                check(u as i128 == x, 1739);
                reach(1);
            } else {
                reach(2);
            }
            check(Integer::from_i64_unchecked(x as i64) == a, 1740);
        }
        _ => {
            check((a == b) == (x == y), 1741);
            check((a < b) == (x < y) && (a <= b) == (x <= y), 1742);
            check((a < y as i64) == (x < y) && (a >= y as i64) == (x >= y), 1743);
            check((a == y as i64) == (x == y), 1744);
            check((a.cmp(&b) == std::cmp::Ordering::Less) == (x < y), 1745);
            check((a.max(b) == x.max(y) as i64) & (a.min(b) == x.min(y) as i64), 1746);
            reach(1);
            reach(2);
        }
    }
}
/// C17 reading text as an Integer. params: number of digits, sign, fixed leading digits of 2^53
pub fn h_intstr() {
    let (n, neg, fixed) = (param(0), param(1) == 1, param(2));
    let mut t = vec![];
    if neg {
        t.push(b'-');
    }
    t.extend_from_slice(&b"9007199254740992"[..fixed]);
    while t.len() < n + neg as usize {
        let b = byte();
        assume(among(b, &[(b'/', b':')]));
        t.push(b);
    }
    let s = as_str(&t);
    let r = s.parse::<Integer>();
    match s.parse::<i64>() {
        Ok(v) => {
            let inside = (v as i128 >= -MAXI) & (v as i128 <= MAXI);
            int_is(r, v as i128, inside, 1750);
        }
        Err(_) => {
            reach(2);
            check(matches!(r, Err(IntegerError::Parse(_))), 1753);
        }
    }
}
/// C17 printing
pub fn h_intfmt() {
    let n = param(0);
    let v = i64v();
    let lim = 10i64.pow(n as u32);
    assume((v > -lim) & (v < lim));
    let s = Integer::try_from(v).unwrap().to_string();
    observe(1, s.len() as u64);
    check(s.parse::<i64>().ok() == Some(v), 1760);
    check(s.parse::<Integer>().ok() == Integer::try_from(v).ok(), 1761);
    reach(1);
}

// ---------------------------------------------------------------- C18 functions

#[cfg_attr(feature = "functions", serde_json_path::function(name = "id"))]
fn f_id(v: ValueType) -> ValueType {
    v
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "has"))]
fn f_has(n: NodesType) -> LogicalType {
    (!n.is_empty()).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "neg"))]
fn f_neg(l: LogicalType) -> LogicalType {
    (!bool::from(l)).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "last"))]
fn f_last<'a>(n: NodesType<'a>) -> NodesType<'a> {
    let l: Vec<&'a Value> = n.last().into_iter().collect();
    l.into()
}
#[cfg_attr(feature = "functions", serde_json_path::function)]
fn zero() -> ValueType<'static> {
    0.into()
}
#[cfg_attr(feature = "functions", serde_json_path::function)]
fn q(v: ValueType) -> LogicalType {
    matches!(v.as_value(), Some(Value::Number(_))).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "nullish"))]
fn f_nullish(v: ValueType) -> LogicalType {
    matches!(v.as_value(), Some(Value::Null) | None).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "true_count"))]
fn f_true_count(a: LogicalType, b: LogicalType) -> ValueType<'static> {
    (bool::from(a) as usize + bool::from(b) as usize).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "mix"))]
fn f_mix<'a>(n: NodesType<'a>, one: ValueType<'a>, l: LogicalType) -> ValueType<'a> {
    json!([n.len(), one.as_value(), bool::from(l)]).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "pair"))]
fn f_pair<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    json!([a.as_value(), b.as_value()]).into()
}
/// its name goes on after a literal's, and has digits
#[cfg_attr(feature = "functions", serde_json_path::function(name = "null_4x"))]
pub fn f_four<'a>(a: ValueType<'a>, n: NodesType<'a>, l: LogicalType, z: ValueType<'a>) -> ValueType<'a> {
    json!([a.as_value(), n.len(), bool::from(l), z.as_value()]).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function)]
fn join<'a>(a: NodesType<'a>, b: serde_json_path::functions::NodesType<'a>) -> NodesType<'a> {
    let mut l = a.all();
    l.extend(b.all());
    l.into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "if1"))]
fn conditional<'a>(test: LogicalType, yes: ValueType<'a>, no: ValueType<'a>) -> ValueType<'a> {
    if bool::from(test) {
        yes
    } else {
        no
    }
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "all5"))]
fn f_all5(a: LogicalType, b: LogicalType, c: LogicalType, d: LogicalType, e: LogicalType) -> serde_json_path::functions::LogicalType {
    [a, b, c, d, e].into_iter().all(bool::from).into()
}
#[cfg_attr(feature = "functions", serde_json_path::function(other = 1, name = "late9"))]
pub(crate) fn f_late(mut a: LogicalType, b: LogicalType) -> LogicalType {
    if bool::from(b) {
        a = LogicalType::False;
    }
    return a;
}
#[cfg_attr(feature = "functions", serde_json_path::function(name = "six"))]
fn f_six<'a, 'b>(a: ValueType<'a>, b: LogicalType, c: NodesType<'a>, d: ValueType<'b>, e: NodesType<'b>, f: LogicalType) -> ValueType<'static> {
    json!([a.as_value(), bool::from(b), c.len(), d.as_value(), e.len(), bool::from(f)]).into()
}

fn truth(d: &Data) -> bool {
    match d {
        Data::Logical(b) => *b,
        _ => panic!(),
    }
}
fn o_has(a: Vec<Data>) -> Data<'static> {
    match &a[0] {
        Data::Nodes(n) => Data::Logical(!n.is_empty()),
        _ => panic!(),
    }
}
fn o_neg(a: Vec<Data>) -> Data<'static> {
    Data::Logical(!truth(&a[0]))
}
fn o_zero(_: Vec<Data>) -> Data<'static> {
    Data::Owned(Value::from(0))
}
fn o_q(a: Vec<Data>) -> Data<'static> {
    Data::Logical(matches!(a[0].val(), Some(Value::Number(_))))
}
fn o_nullish(a: Vec<Data>) -> Data<'static> {
    Data::Logical(matches!(a[0].val(), Some(Value::Null) | None))
}
fn o_count(a: Vec<Data>) -> Data<'static> {
    Data::Owned(Value::from(truth(&a[0]) as usize + truth(&a[1]) as usize))
}
fn o_mix(a: Vec<Data>) -> Data<'static> {
    let n = match &a[0] {
        Data::Nodes(n) => n.len(),
        _ => panic!(),
    };
    Data::Owned(json!([n, a[1].val(), truth(&a[2])]))
}
fn o_pair(a: Vec<Data>) -> Data<'static> {
    Data::Owned(json!([a[0].val(), a[1].val()]))
}
fn o_four(a: Vec<Data>) -> Data<'static> {
    let n = match &a[1] {
        Data::Nodes(n) => n.len(),
        _ => panic!(),
    };
    Data::Owned(json!([a[0].val(), n, truth(&a[2]), a[3].val()]))
}
fn o_all5(a: Vec<Data>) -> Data<'static> {
    Data::Logical(a.iter().all(truth))
}
fn o_late(a: Vec<Data>) -> Data<'static> {
    Data::Logical(truth(&a[0]) && !truth(&a[1]))
}
fn o_six(a: Vec<Data>) -> Data<'static> {
    let n = |d: &Data| match d {
        Data::Nodes(n) => n.len(),
        _ => panic!(),
    };
    Data::Owned(json!([a[0].val(), truth(&a[1]), n(&a[2]), a[3].val(), n(&a[4]), truth(&a[5])]))
}
fn o_none(_: Vec<Data>) -> Data<'static> {
    Data::Nothing
}
pub static CUSTOM: &[FnDef] = &[
    FnDef { name: "id", args: &[Ty::V], ret: Ty::V, eval: o_none, pass: 2 },
    FnDef { name: "has", args: &[Ty::N], ret: Ty::L, eval: o_has, pass: 0 },
    FnDef { name: "neg", args: &[Ty::L], ret: Ty::L, eval: o_neg, pass: 0 },
    FnDef { name: "last", args: &[Ty::N], ret: Ty::N, eval: o_none, pass: 3 },
    FnDef { name: "zero", args: &[], ret: Ty::V, eval: o_zero, pass: 0 },
    FnDef { name: "q", args: &[Ty::V], ret: Ty::L, eval: o_q, pass: 0 },
    FnDef { name: "nullish", args: &[Ty::V], ret: Ty::L, eval: o_nullish, pass: 0 },
    FnDef { name: "true_count", args: &[Ty::L, Ty::L], ret: Ty::V, eval: o_count, pass: 0 },
    FnDef { name: "mix", args: &[Ty::N, Ty::V, Ty::L], ret: Ty::V, eval: o_mix, pass: 0 },
    FnDef { name: "pair", args: &[Ty::V, Ty::V], ret: Ty::V, eval: o_pair, pass: 0 },
    FnDef { name: "null_4x", args: &[Ty::V, Ty::N, Ty::L, Ty::V], ret: Ty::V, eval: o_four, pass: 0 },
    FnDef { name: "join", args: &[Ty::N, Ty::N], ret: Ty::N, eval: o_none, pass: 4 },
    FnDef { name: "if1", args: &[Ty::L, Ty::V, Ty::V], ret: Ty::V, eval: o_none, pass: 5 },
    FnDef { name: "all5", args: &[Ty::L, Ty::L, Ty::L, Ty::L, Ty::L], ret: Ty::L, eval: o_all5, pass: 0 },
    FnDef { name: "late9", args: &[Ty::L, Ty::L], ret: Ty::L, eval: o_late, pass: 0 },
    FnDef { name: "six", args: &[Ty::V, Ty::L, Ty::N, Ty::V, Ty::N, Ty::L], ret: Ty::V, eval: o_six, pass: 0 },
];
static NAMES: &[&str] = &["id", "has", "neg", "last", "zero", "q", "nullish", "true_count", "mix", "pair", "null_4x", "join", "if1", "all5", "late9", "six", "length", "count", "value", "i", "ids", "has_", "nul", "late", "f_late", "f_six", "six_"];
static ARGS: &[&str] = &[
    "", "@", "@.a", "@.*", "$.a", "@..a", "1", "'a'", "null", "true", "@.a==1", "!@.a", "(@.a)", "@.a&&@.b", "id(@.a)", "last(@.*)", "has(@.*)", "neg(@.a)", "zero()", "count(@.*)", "q(@)", "value(@.*)", "@,@", "@.a,@.b",
    "@.*,@.a,@.b", "@.*,1,@.a==1", "@.*,zero(),q(@.a)", "last(@.*),id(@),neg(@.b)", "@.a==1,!@.b", "1,@.*", "@,@,@,@", "@.a,@.b,1", "!neg(@.a)", "neg(neg(@.a))", "last(last(@.*))", "id(id(@.a))", "nope(@)", "@[0:2]", "@[?@]", "has(last(@.*))",
    "length(id(@.a))", "@.a , @.b", " @ ", "(neg(@.a))", "@.a,@.*,@.b,1", "1,@.a,@.a==1,zero()", "@.a,join(@.a,@.b),neg(@),id(1)", "@.a,@.b,@.a,@.b", "@.a,1,'x'", "@,@.a==1,@.b,neg(@),@", "has(@),!@.a,(@.b),@,@", "@.*,$[0].*", "@.a,join(@.b,@.*)", "1,2,3,4", "1,2,@,4", "@,@,1,1", "@,1,@.a,1", "1,@.a==1,@.*,@.b,@..a,!@", "@.a,@,@.*,1,@,@.b", "@.a,@,@.*,1,@", "@.a,@,@.*,1,@,@.b,1", "1,@,@.*,@.*,@,@", "1,@,@.*,@,@,1", "1,@,@.*,@,1,@", "1,1,@.*,@,@,@", "@,@,@,@,1", "@,@,@,1,@", "1,@.*,@", "1,@,1",
    "@.a.b.c.d.e.f", "@[0][1][2].a[3][4]", "$.a.b[0].c.d.e,'x'",
];
static USES: &[&str] = &["$[?{}]", "$[?!{}]", "$[?{}==1]", "$[?0<={}]", "$[?({})&&@]", "$[?{}==id(@.a)]", "$[?count({})==1]", "$[?id({})==0]", "$[?neg({})]", "$[?{}!={}]", "$[?has({})||@.b]", "$[?length({})==3]"];
/// C18 custom and standard functions: every name, argument list and use; typing
/// against the reference. param: use
pub fn h_custom() {
    let u = USES[param(0)];
    let f = NAMES[pick(NAMES.len())];
    let a = ARGS[pick(ARGS.len())];
    let t = u.replace("{}", &format!("{f}({a})"));
    let o = oracle::parse(&t);
    let r = JsonPath::parse(&t);
    observe(1, r.is_ok() as u64);
    check(r.is_ok() == o.is_ok(), 1800);
    if let (Ok(r), Ok(o)) = (r, o) {
        reach(1);
        let d = json!([{"a": 1, "b": 2}, {"a": null}, {"b": [0]}, [1, 2, 3], 7, "xyz", {"a": {"a": 1}}]);
        nodes_ok(r.query(&d), &o, &d, 1801);
    } else {
        reach(2);
    }
}
/// C15 what such calls print as
pub fn h_callrt() {
    let u = USES[param(0)];
    let f = NAMES[pick(19)];
    let a = ARGS[pick(ARGS.len())];
    let t = u.replace("{}", &format!("{f}({a})"));
    if JsonPath::parse(&t).is_ok() {
        round_trip(&t, false);
    }
}
static CALLS: &[&str] = &[
    "$[?id(@.l)==@.l]", "$[?has(@.l.*)]", "$[?!has(@.l)]", "$[?neg(@.l)]", "$[?neg(@.l==1)]", "$[?last(@.l.*)]", "$[?has(last(@.l.*))]", "$[?q(@.l)]", "$[?q(id(@.l))]", "$[?nullish(@.l)]", "$[?nullish(id(@.l)) && @.l]",
    "$[?true_count(@.l,@.l==1)==1]", "$[?zero()==@.l]", "$[?mix(@.l.*,@.l,@.l)==mix(@.l.*,@.l,neg(neg(@.l)))]", "$[?count(last(@..*))==1]", "$[?value(last(@.l.*))==id(@.l)]", "$[?length(id(@.l))>=zero()]", "$[?neg(last(@.l.*))]",
    "$[?pair(@.l,0)==pair(id(@.l),zero())]", "$[?pair(@.l,@.z)==pair(@.z,@.l)]", "$[?value(join(@.l,@.l.*))==@.l]", "$[?count(join(@.l.*,@.l))==1]", "$[?join(@.z,@.l)]", "$[?!join(@.l.*,@.z)]", "$[?if1(@.l==1,@.l,'x')==1]",
    "$[?if1(q(@.l),@.l,zero())==@.l]", "$[?null_4x(@.l,@.l.*,@.l,@.z)==null_4x(@.l,@.l.*,!@.z,@.l)]", "$[?null_4x(1,@.l,@.z,@.l)==null_4x(1,@.l,!@.l,id(@.l))]", "$[?all5(@.l,@,!@.z,has(@.l),@.l!=2)]", "$[?!all5(@,@,@,@,q(@.l))]", "$[?length(pair(@.l,@.z))==2]",
    "$[?late9(@.l,@.z)]", "$[?late9(@.l!=1,has(@.l.*))]", "$[?six(@.l,@.l,@.l.*,@.z,@.l,!@.l)==six(@.l,!@.z,@.l[*],@.z,@.l,@.z)]",
];
/// C18 what a function receives and what becomes of its result. params: call, kind
pub fn h_call() {
    let t = CALLS[param(0)];
    let k = param(1);
    let o = oracle::parse(t).unwrap();
    let p = JsonPath::parse(t);
    check(p.is_ok(), 1810);
    let mut m = serde_json::Map::new();
    if k < KINDS {
        m.insert("l".into(), kind_value(k, 1));
    }
    let d = Value::Array(vec![Value::Object(m)]);
    let want = nodes_ok(p.unwrap().query(&d), &o, &d, 1811);
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C18 the text between name and bracket, and the reasons given
pub fn h_callname() {
    let t = [b"$[?\x80q(@)]".as_slice(), b"$[?q\x80(@)]", b"$[?\x80(@)]", b"$[?zero(\x80)==0]", b"$[?h\x80s(@)]", b"$[?n\x80\x80(@)]", b"$[?true\x80count(@,@)==1]", b"$[?q(@\x80)]", b"$[?q(\x80@)]", b"$[?i\x80(@.a)==1]", b"$[?nul\x80ish(@)]", b"$[?has(@\x80\x80)]", b"$[?late\x80(@,@)]", b"$[?late9\x80@,@.a)]", b"$[?true_count\x80(@,@)==1]", b"$[?late9\x80(@,@.a)]", b"$[?nullish\x80(@)]", b"$[?length\x80(@)==1]", b"$[?value\x80(@.a)==1]", b"$[?count\x80(@.*)==1]", b"$[?\x80nullish(@)]", b"$[?match\x80(@,'a')]"][param(0)];
    let v = text(t);
    let t = as_str(&v);
    let o = oracle::parse(t);
    if let Err(oracle::Bad::Open) = o {
        assume(false);
    }
    let r = JsonPath::parse(t);
    observe(1, r.is_ok() as u64);
    check(r.is_ok() == o.is_ok(), 1820);
    if let (Ok(r), Ok(o)) = (r, o) {
        reach(1);
        let d = json!([{"a": 1, "b": 2}, {"a": null}, {"b": [0]}, [1, 2, 3], 7]);
        nodes_ok(r.query(&d), &o, &d, 1821);
    } else {
        reach(2);
    }
}
/// C18 the error for a wrong number of arguments names both numbers
pub fn h_argc() {
    let (f, n) = [("id", 1), ("zero", 0), ("true_count", 2), ("mix", 3), ("length", 1), ("count", 1), ("match", 2), ("search", 2), ("value", 1)][pick(9)];
    let k = pick(5);
    let mut a = String::new();
    for i in 0..k {
        a.push_str(if i == 0 { "@" } else { ",@" });
    }
    let t = format!("$[?{f}({a})==1]");
    let r = JsonPath::parse(&t);
    if k != n {
        let Err(e) = r else {
            check(false, 1830);
            return;
        };
        let m = e.to_string();
        let w = format!("expected {n} args, but received {k}");
        check(m.contains(&w), 1831);
        reach(2);
    } else {
        if let Err(e) = r {
            check(!e.to_string().contains(" args, but received"), 1832);
        }
        reach(1);
    }
}

/// C18 an argument of the wrong kind is reported with the function, its place and
/// the kind expected, at the call; so is an unknown name. param: use
pub fn h_argkind() {
    let k = pick(CUSTOM.len() + oracle::STD.len());
    let f = if k < CUSTOM.len() { &CUSTOM[k] } else { &oracle::STD[k - CUSTOM.len()] };
    let n = f.args.len();
    assume(n > 0);
    let (bad, other) = (pick(6), pick(6));
    assume((bad < n) & (other >= bad) & (other < n));
    let mut c = f.name.to_string() + "(";
    for (i, t) in f.args.iter().enumerate() {
        c.push_str(if i == 0 { "" } else { " ," });
        let w = i == bad || i == other;
        c.push_str(match t {
            Ty::V if w => ["@.*", "@.a==1", "last(@.*)"][pick(3)],
            Ty::V => "@.a",
            Ty::L if w => ["1", "'x'", "id(@)"][pick(3)],
            Ty::L => "@.a==1",
            Ty::N if w => ["1", "@.a==1", "zero()"][pick(3)],
            Ty::N => "@.*",
        });
    }
    c.push(')');
    let (a, b) = [("$[?", "==1]"), ("$[?", "]"), ("$[?!", "]"), ("$.a[0,?@.a&&", "]"), ("$[?length(", ")==1]"), ("$[?count(@.*) > 1 || has(", ")]"), ("$[?(", ")]"), ("$[?@[?", "]]")][param(0)];
    let (t, at) = ([a, &c, b].concat(), a.len());
    let Err(e) = JsonPath::parse(&t) else {
        check(false, 1840);
        return;
    };
    observe(1, e.position() as u64);
    let kind = match f.args[bad] {
        Ty::V => "ValueType",
        Ty::L => "LogicalType",
        Ty::N => "NodesType",
    };
    let m = e.message();
    check(m.contains(f.name) && m.contains(&format!("position {bad}")) && m.contains(kind), 1841);
    check(e.position() == at, 1842);
    // the same call of a function nobody registered
    let g = ["nope", "i", "lengths", "matc", "has_"][pick(5)];
    let t = [a, g, &c[f.name.len()..], b].concat();
    let e = JsonPath::parse(&t).err();
    check(e.map_or(false, |e| e.message().contains(g) && e.position() == at), 1843);
    reach(1);
}

// ---------------------------------------------------------------- C20 conversions

fn same_value(a: Option<&Value>, b: Option<&Value>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a == b,
        _ => false,
    }
}
/// C20 which values convert to which function types, and to what. params: kind
/// of value, number of nodes
pub fn h_conv() {
    let v = kind_value(param(0), 1);
    let n = param(1);
    let nodes: Vec<&Value> = (0..n).map(|_| &v).collect();
    let b = flag();
    let logical = |b: bool| JsonPathValue::Logical(b.into());
    // to NodesType
    let t = |x: JsonPathValue| -> Option<usize> { serde_json_path_core::spec::functions::NodesType::try_from(to_arg(x)).ok().map(|n| n.all().len()) };
    fn to_arg(x: JsonPathValue) -> JsonPathValue {
        x
    }
    check(t(JsonPathValue::Nodes(nodes.clone().into())) == Some(n), 2000);
    check(t(JsonPathValue::Node(&v)) == Some(1), 2001);
    check(t(JsonPathValue::Nothing) == Some(0), 2002);
    check(t(JsonPathValue::Value(v.clone())).is_none(), 2003);
    check(t(logical(b)).is_none(), 2004);
    if let Ok(x) = NodesType::try_from(JsonPathValue::Node(&v)) {
        check(std::ptr::eq(x.first().unwrap(), &v), 2005);
    }
    // to LogicalType
    let t = |x: JsonPathValue| -> Option<bool> { LogicalType::try_from(x).ok().map(bool::from) };
    check(t(JsonPathValue::Nodes(nodes.clone().into())) == Some(n > 0), 2006);
    check(t(JsonPathValue::Node(&v)) == Some(true), 2007);
    check(t(JsonPathValue::Nothing) == Some(false), 2008);
    check(t(JsonPathValue::Value(v.clone())).is_none(), 2009);
    check(t(logical(b)) == Some(b), 2010);
    // the reason given names both types
    let why = |e: Option<String>, from: &str, to: &str, id: u64| {
        let Some(s) = e else {
            check(false, id);
            return;
        };
        let (f, t) = (s.find(from), s.rfind(to));
        check(f.is_some() & t.is_some() && f < t, id);
    };
    why(NodesType::try_from(JsonPathValue::Value(v.clone())).err().map(|e| e.to_string()), "", "NodesType", 2040);
    why(NodesType::try_from(logical(b)).err().map(|e| e.to_string()), "LogicalType", "NodesType", 2041);
    why(LogicalType::try_from(JsonPathValue::Value(v.clone())).err().map(|e| e.to_string()), "ValueType", "LogicalType", 2042);
    why(ValueType::try_from(JsonPathValue::Nodes(nodes.clone().into())).err().map(|e| e.to_string()), "NodesType", "ValueType", 2043);
    let s = ValueType::try_from(logical(b)).err().map(|e| e.to_string());
    if s == ValueType::try_from(JsonPathValue::Nodes(vec![].into())).err().map(|e| e.to_string()) {
        finding(9103);
    } else {
        why(s, "LogicalType", "ValueType", 2044);
    }
    // to ValueType
    let t = |x: JsonPathValue, w: Option<&Value>| ValueType::try_from(x).map_or(false, |y| same_value(y.as_value(), w) && y.is_nothing() == w.is_none());
    check(t(JsonPathValue::Value(v.clone()), Some(&v)), 2011);
    check(t(JsonPathValue::Node(&v), Some(&v)), 2012);
    check(t(JsonPathValue::Nothing, None), 2013);
    check(ValueType::try_from(JsonPathValue::Nodes(nodes.clone().into())).is_err(), 2014);
    check(ValueType::try_from(logical(b)).is_err(), 2015);
    // and back
    check(matches!(JsonPathValue::from(NodesType::from(nodes.clone())), JsonPathValue::Nodes(l) if l.len() == n), 2016);
    check(matches!(JsonPathValue::from(ValueType::Node(&v)), JsonPathValue::Node(x) if std::ptr::eq(x, &v)), 2017);
    check(matches!(JsonPathValue::from(ValueType::Value(v.clone())), JsonPathValue::Value(x) if x == v), 2018);
    check(matches!(JsonPathValue::from(ValueType::Nothing), JsonPathValue::Nothing), 2019);
    check(matches!(JsonPathValue::from(LogicalType::from(b)), JsonPathValue::Logical(x) if bool::from(x.clone()) == b), 2020);
    check(ValueType::default().is_nothing() && !bool::from(LogicalType::default()) && NodesType::default().is_empty(), 2021);
    reach(1);
}
/// C20 the static table agrees with the dynamic conversions
pub fn h_table() {
    let ty = [JsonPathType::Nodes, JsonPathType::Value, JsonPathType::Logical][pick(3)];
    let k = pick(5);
    let arg = [FunctionArgType::Literal, FunctionArgType::SingularQuery, FunctionArgType::Value, FunctionArgType::Nodelist, FunctionArgType::Logical][k];
    let v = Value::Null;
    // every dynamic value such an argument can take
    let forms: Vec<JsonPathValue> = match k {
        0 => vec![JsonPathValue::Value(v.clone())],
        1 => vec![JsonPathValue::Node(&v), JsonPathValue::Nothing],
        2 => vec![JsonPathValue::Value(v.clone()), JsonPathValue::Node(&v), JsonPathValue::Nothing],
        3 => vec![JsonPathValue::Nodes(vec![].into()), JsonPathValue::Nodes(vec![&v].into())],
        _ => vec![JsonPathValue::Logical(LogicalType::True), JsonPathValue::Logical(LogicalType::False)],
    };
    let all = forms.into_iter().all(|x| match ty {
        JsonPathType::Nodes => NodesType::try_from(x).is_ok(),
        JsonPathType::Value => ValueType::try_from(x).is_ok(),
        JsonPathType::Logical => LogicalType::try_from(x).is_ok(),
    });
    check(arg.converts_to(ty) == all, 2030);
    reach(if all { 1 } else { 2 });
}
