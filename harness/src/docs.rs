//! C06–C10, C12: what a query selects from a document.
use crate::grammar::*;
use crate::oracle::{self, Op, Query};
use crate::sym::*;
use serde_json::{Map, Number, Value};
use serde_json_path::{JsonPath, JsonPathExt, NormalizedPath};
use serde_json_path_core::spec::integer::Integer;
use serde_json_path_core::spec::query::Queryable;
use serde_json_path_core::spec::selector::{index::Index, slice::Slice};

pub static SEGS: &[&str] = &[
    ".a", "[*]", "..*", "['a','b']", "..a", "[0]", "[-1]", "[0:2]", "[::-1]", "['b',*,0]", "[*,*]", "..[0]", "..['a',*]", "[?@.a]", "..[-1:]", "..[?@[0]]", "[?@>2,'b']",
    "[1::2]", "[0,0]", ".*", "[-2]", "..[*,0]", "..[?@.*]", "['d']['c']", "[?@[?@.a]]", "..[?@.a,?@.b]", "[-1:0:-1]", "..[::2]",
];

fn both(t: &str) -> (JsonPath, Query) {
    (JsonPath::parse(t).unwrap(), oracle::parse(t).unwrap())
}
/// a path walked by hand
fn walk<'a>(root: &'a Value, p: &NormalizedPath) -> Option<&'a Value> {
    let mut v = root;
    for e in p.iter() {
        v = match (v, e.as_name(), e.as_index()) {
            (Value::Object(m), Some(k), None) => m.get(k)?,
            (Value::Array(a), None, Some(i)) => a.get(i)?,
            _ => return None,
        };
    }
    Some(v)
}

/// C06 `$ S1 S2` on every document of the given depth and width. params: S1,
/// depth, width, number of alternatives for S2 (0: none)
pub fn h_nodes() {
    let (i, depth, width, alt) = (param(0), param(1), param(2), param(3));
    let mut t = "$".to_string() + SEGS[i];
    if alt > 0 {
        t.push_str(SEGS[pick(alt)]);
    }
    let (p, o) = both(&t);
    let d = doc(depth, width, &mut 0);
    let want = nodes_ok(p.query(&d), &o, &d, 600);
    observe(1, want.len() as u64);
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C06 the nodelist of the root query and of segment-wise evaluation
pub fn h_steps() {
    let (depth, width) = (param(0), param(1));
    let (a, b) = (SEGS[pick(12)], SEGS[pick(12)]);
    let whole = JsonPath::parse(&format!("${a}{b}")).unwrap();
    let first = JsonPath::parse(&format!("${a}")).unwrap();
    let second = JsonPath::parse(&format!("${b}")).unwrap();
    let d = doc(depth, width, &mut 0);
    let r = JsonPath::parse("$").unwrap().query(&d).all();
    check(r.len() == 1 && std::ptr::eq(r[0], &d), 610);
    // the second segment applied to each node of the first, in order
    let mut l: Vec<&Value> = vec![];
    for n in first.query(&d) {
        l.extend(second.query(n).all());
    }
    let w = whole.query(&d).all();
    observe(1, w.len() as u64);
    check(w.len() == l.len(), 611);
    for i in 0..l.len() {
        check(std::ptr::eq(w[i], l[i]), 612);
    }
    let e = d.json_path(&whole).all();
    check(e.len() == l.len(), 613);
    reach(if l.is_empty() { 2 } else { 1 });
}

/// C12 located queries. params as h_nodes; the fifth parses the printed
/// location back
pub fn h_located() {
    let (i, depth, width, alt, back) = (param(0), param(1), param(2), param(3), param(4));
    let mut t = "$".to_string() + SEGS[i];
    if alt > 0 {
        t.push_str(SEGS[pick(alt)]);
    }
    let (p, o) = both(&t);
    let d = doc(depth, width, &mut 0);
    let want = nodes_ok(p.query(&d), &o, &d, 1210);
    let plain = p.query(&d).all();
    let l = p.query_located(&d);
    observe(1, l.len() as u64);
    check(l.len() == plain.len(), 1200);
    for (a, b) in l.iter().zip(&plain) {
        check(std::ptr::eq(a.node(), *b), 1201);
        check(walk(&d, a.location()).map_or(false, |v| std::ptr::eq(v, a.node())), 1202);
    }
    for (a, b) in l.iter().zip(&want) {
        check(path_is(a.location(), &b.path), 1203);
    }
    check(l.len() == want.len(), 1204);
    if back == 1 {
        for a in l.iter() {
            let s = a.location().to_string();
            let q = JsonPath::parse(&s);
            check(q.is_ok(), 1205);
            let f = q.unwrap().query_located(&d).all();
            check(f.len() == 1, 1206);
            check(std::ptr::eq(f[0].node(), a.node()), 1207);
            check(f[0].location() == a.location(), 1208);
        }
        // locations tell nodes apart
        let v = l.all();
        for i in 0..v.len() {
            for j in 0..i {
                check((v[i].location() == v[j].location()) == std::ptr::eq(v[i].node(), v[j].node()), 1209);
            }
        }
    }
    reach(if plain.is_empty() { 2 } else { 1 });
}

fn nums(n: usize) -> Value {
    Value::Array((0..n).map(Value::from).collect())
}
fn at(l: &Value, v: &Value) -> i64 {
    let a = l.as_array().unwrap();
    ((v as *const Value as usize - a.as_ptr() as usize) / std::mem::size_of::<Value>()) as i64
}
fn ijson() -> i64 {
    let v = i64v();
    assume((v >= -oracle::MAXI) & (v <= oracle::MAXI));
    v
}
/// C07 a slice selector with any bounds and step on an array of n elements.
/// params: n, bit mask of the parts present
pub fn h_slice() {
    let (n, mask) = (param(0), param(1));
    let d = nums(n);
    let mut s = Slice::default();
    let (mut st, mut en, mut sp) = (None, None, None);
    if mask & 1 != 0 {
        let v = ijson();
        st = Some(v);
        s.start = Integer::try_from(v).ok();
    }
    if mask & 2 != 0 {
        let v = ijson();
        en = Some(v);
        s.end = Integer::try_from(v).ok();
    }
    if mask & 4 != 0 {
        let v = ijson();
        sp = Some(v);
        s.step = Integer::try_from(v).ok();
    }
    check((s.start.is_some() == st.is_some()) & (s.end.is_some() == en.is_some()) & (s.step.is_some() == sp.is_some()), 700);
    let want = oracle::slice(n as i64, st, en, sp);
    let got = s.query(&d, &d);
    observe(1, got.len() as u64);
    check(got.len() == want.len(), 701);
    for (g, w) in got.iter().zip(&want) {
        check(at(&d, g) == *w, 702);
    }
    let loc = s.query_located(&d, &d, Default::default());
    check(loc.len() == want.len(), 703);
    for (g, w) in loc.iter().zip(&want) {
        check(at(&d, g.node()) == *w, 704);
        check(g.location().len() == 1 && g.location().first().unwrap().as_index() == Some(*w as usize), 705);
    }
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C07 an index selector with any index on an array of n elements
pub fn h_index() {
    let n = param(0);
    let d = nums(n);
    let i = ijson();
    let x = Index(Integer::try_from(i).unwrap());
    let j = if i < 0 { i + n as i64 } else { i };
    let inside = (j >= 0) & (j < n as i64);
    let got = x.query(&d, &d);
    observe(1, got.len() as u64);
    check((got.len() == 1) == inside, 710);
    check(got.len() <= 1, 711);
    let loc = x.query_located(&d, &d, Default::default());
    check(loc.len() == got.len(), 712);
    if got.len() == 1 {
        reach(1);
        check(at(&d, got[0]) == j, 713);
        check(at(&d, loc[0].node()) == j, 714);
        check(loc[0].location().first().unwrap().as_index() == Some(j as usize), 715);
    } else {
        reach(2);
    }
}
/// C07 index and slice select nothing from anything but an array
pub fn h_nonarray() {
    let t = ["$[0]", "$[-1]", "$[0:2]", "$[::-1]", "$[:]", "$..[0]", "$[?@[0]]", "$[?@[-1]==1]"][pick(8)];
    let p = JsonPath::parse(t).unwrap();
    let k = pick(9);
    let d = kind_value(k, 2);
    let want = nodes_ok(p.query(&d), &oracle::parse(t).unwrap(), &d, 720);
    located_ok(p.query_located(&d), &want, 724);
    if !d.is_array() && !d.is_object() {
        check(want.is_empty(), 722);
    }
    reach(1);
}
/// C07 the text of a slice or index, on arrays and through singular queries.
pub fn h_slicetext() {
    let d = nums(param(0));
    let form = param(1);
    let small = |t: &mut String| {
        let k = pick(8);
        if k > 0 {
            t.push_str(["0", "1", "2", "-1", "-2", "9007199254740991", "-9007199254740991"][k - 1]);
        }
    };
    let mut t = "$".to_string();
    match form {
        0 => {
            t.push('[');
            small(&mut t);
            t.push(':');
            small(&mut t);
            t.push(':');
            small(&mut t);
            t.push(']');
        }
        1 => {
            t.push_str("[?$[");
            small(&mut t);
            t.push_str("]==@]");
        }
        _ => {
            t.push_str("[0,");
            small(&mut t);
            t.push_str(",1]");
        }
    }
    let Ok(o) = oracle::parse(&t) else {
        check(JsonPath::parse(&t).is_err(), 730);
        return;
    };
    let p = JsonPath::parse(&t);
    check(p.is_ok(), 731);
    let p = p.unwrap();
    let want = nodes_ok(p.query(&d), &o, &d, 732);
    located_ok(p.query_located(&d), &want, 734);
    reach(if want.is_empty() { 2 } else { 1 });
}

/// A value of one of the kinds a comparison distinguishes; its payload is symbolic.
pub const KINDS: usize = 16;
pub fn kind_value(k: usize, len: usize) -> Value {
    match k {
        0 => Value::Null,
        1 => Value::Bool(flag()),
        2 => Value::from(ijson()),
        3 => {
            // any finite double
            let v = f64::from_bits(u64v());
            assume(v.is_finite());
            Value::Number(Number::from_f64(v).unwrap())
        }
        4 => Value::String(string(len)),
        5 => Value::String(string(1)),
        6 => Value::Array(vec![]),
        7 => Value::Object(Map::new()),
        8 => Value::Array(vec![Value::from(small_int())]),
        9 => {
            let mut m = Map::new();
            m.insert(class_string(1, KEY), Value::from(small_int()));
            Value::Object(m)
        }
        10 => Value::Array(vec![Value::from(small_int() as f64)]),
        11 => {
            let mut m = Map::new();
            let (a, b) = (byte(), byte());
            assume((a >= b'a') & (a < b) & (b <= b'd'));
            m.insert(own(a), Value::from(small_int()));
            m.insert(own(b), Value::Bool(flag()));
            Value::Object(m)
        }
        12 => Value::Array(vec![Value::Bool(flag()), Value::Array(vec![Value::from(small_int())])]),
        13 => {
            let mut m = Map::new();
            m.insert("a".into(), Value::Array(vec![Value::from(small_int() as f64)]));
            Value::Object(m)
        }
        14 => Value::from(small_int() as f64),
        _ => Value::String(string(2)),
    }
}
fn own(b: u8) -> String {
    unsafe { String::from_utf8_unchecked(vec![b]) }
}
fn small_int() -> i64 {
    let b = byte();
    assume(b <= 2);
    b as i64 - 1
}
const OPS: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];

pub fn compare_all(l: &str, r: &str, d: &Value, id: u64) {
    for (i, op) in OPS.iter().enumerate() {
        let t = format!("$.x[?{l} {op} {r}]");
        let (p, o) = both(&t);
        let want = nodes_ok(p.query(d), &o, d, id + 10 * i as u64);
        observe(i as u64 + 1, want.len() as u64);
        reach(if want.is_empty() { 2 } else { 1 });
    }
}
pub fn row(l: Option<Value>, r: Option<Value>) -> Value {
    let mut m = Map::new();
    if let Some(l) = l {
        m.insert("l".into(), l);
    }
    if let Some(r) = r {
        m.insert("r".into(), r);
    }
    Value::Object(m)
}
pub fn under_x(v: Value, w: Option<Value>) -> Value {
    let mut m = Map::new();
    m.insert("x".into(), Value::Array(vec![v]));
    if let Some(w) = w {
        m.insert("w".into(), w);
    }
    Value::Object(m)
}
/// C08 two singular queries. params: kind of the left and of the right value
/// (KINDS: absent), string length
pub fn h_cmp() {
    let (a, b, n) = (param(0), param(1), param(2));
    let l = if a < KINDS { Some(kind_value(a, n)) } else { None };
    let r = if b < KINDS { Some(kind_value(b, n)) } else { None };
    let d = under_x(row(l, r), None);
    compare_all("@.l", "@.r", &d, 8000);
}
static LITS: &[&str] = &["null", "true", "false", "0", "-0", "1", "-1", "1.0", "1e0", "0.5", "-1.5e-1", "9007199254740991", "-9007199254740991", "1e300", "''", "'a'", "\"a\"", "'ab'", "'\\u00e9'", "'\\n'", "'b'", "0.1", "16777217", "16777217.0", "123456789012345.6", "4503599627370497.5", "1e-300", "5e-324", "1.7976931348623157e308", "-0.0", "0.30000000000000004", "1E+2", "100e-2"];
/// C08 a literal on either side. params: side, kind of the other operand
pub fn h_lit() {
    let (side, k) = (param(0), param(1));
    let t = LITS[pick(LITS.len())];
    let v = if k < KINDS { Some(kind_value(k, 2)) } else { None };
    let d = under_x(row(v, None), None);
    if side == 0 {
        compare_all(t, "@.l", &d, 8100);
    } else {
        compare_all("@.l", t, &d, 8200);
    }
}
static TERMS: &[&str] = &["@.l", "@['l']", "@.l[0]", "@.l[-1]", "@.l.a", "$.w", "$['w'][0]", "length(@.l)", "length($.w)", "count(@.l.*)", "count($..*)", "value(@.l.*)", "value($.w[0,1])", "value(@..a)", "@", "1", "'a'", "null"];
/// C08 every kind of comparable against every other. params: left term, kind of @.l
pub fn h_terms() {
    let (i, a) = (param(0), param(1));
    let j = pick(TERMS.len());
    let l = if a < KINDS { Some(kind_value(a, 1)) } else { None };
    let w = [Value::from(1), serde_json::json!([1, "a"]), serde_json::json!("a"), Value::Null][pick(4)].clone();
    let d = under_x(row(l, None), Some(w));
    compare_all(TERMS[i], TERMS[j], &d, 8300);
}
/// C08 the relations between the six operators, on any two values
pub fn h_ops() {
    let (a, b) = (param(0), param(1));
    let l = if a < KINDS { Some(kind_value(a, 2)) } else { None };
    let r = if b < KINDS { Some(kind_value(b, 2)) } else { None };
    let d = under_x(row(l, r), None);
    let q = |t: &str| !JsonPath::parse(t).unwrap().query(&d).is_empty();
    let eq = q("$.x[?@.l==@.r]");
    let ne = q("$.x[?@.l!=@.r]");
    let lt = q("$.x[?@.l<@.r]");
    let le = q("$.x[?@.l<=@.r]");
    let gt = q("$.x[?@.l>@.r]");
    let ge = q("$.x[?@.l>=@.r]");
    check(eq != ne, 840);
    check(q("$.x[?!(@.l<@.r)]") == !lt, 847);
    check(q("$.x[?!(@.l>=@.r)]") == !ge, 849);
    check(q("$.x[?@.l==@.l && @.r==@.r]"), 848);
    check(eq == q("$.x[?@.r==@.l]"), 844);
    let x = &d["x"][0];
    let noted = |a: &str, b: &str| {
        let mut n = 0;
        for op in [Op::Lt, Op::Le, Op::Gt, Op::Ge] {
            n |= oracle::compare_recorded(x.get(a), op, x.get(b)).1;
        }
        n
    };
    if noted("l", "r") | noted("r", "l") == 0 {
        check(le == (lt | eq), 841);
        check(ge == (gt | eq), 842);
        check(!(lt & gt) & !(lt & eq) & !(gt & eq), 843);
        check(lt == q("$.x[?@.r>@.l]"), 845);
        check(le == q("$.x[?@.r>=@.l]"), 846);
    } else {
        // h_cmp decides these, and reports the finding; what is left:
        check(!lt, 850);
        check(!(gt & eq), 851);
    }
    reach(if eq { 1 } else { 2 });
}

const ATOMS: [&str; 8] = ["@.a", "@.b", "@.c", "@.a==1", "$.x", "@.b<@.c", "@.*", "@['a','b']"];
/// C09 truth of logical expressions over three atoms with every mix of
/// connectives, negations and brackets
pub fn h_logic() {
    let base = param(0);
    let n = |s: bool| if s { "!" } else { "" };
    let atoms = match base {
        0 => [ATOMS[0], ATOMS[1], ATOMS[2]],
        1 => [ATOMS[3], ATOMS[0], ATOMS[2]],
        2 => [ATOMS[4], ATOMS[5], ATOMS[1]],
        _ => [ATOMS[6], ATOMS[7], ATOMS[2]],
    };
    let cmp = |s: &str| s.contains('=') || s.contains('<');
    let not = |s: &str, k: bool| if k && cmp(s) { format!("!({s})") } else { format!("{}{s}", n(k)) };
    let m = pick(32);
    let (o1, o2) = (["&&", "||"][m & 1], ["&&", "||"][m >> 1 & 1]);
    let a = not(atoms[0], m & 4 != 0);
    let b = not(atoms[1], m & 8 != 0);
    let c = not(atoms[2], m & 16 != 0);
    let t = match pick(6) {
        0 => format!("{a}{o1}{b}{o2}{c}"),
        1 => format!("({a}{o1}{b}){o2}{c}"),
        2 => format!("{a}{o1}({b}{o2}{c})"),
        3 => format!("!({a}{o1}{b}){o2}{c}"),
        4 => format!("{a}{o1}!({b}{o2}{c})"),
        _ => format!("!({a} {o1} {b} {o2} {c})"),
    };
    let t = format!("$.x[?{t}]");
    let (p, o) = both(&t);
    let mut m = Map::new();
    for k in ["a", "b", "c"] {
        if pick(2) == 1 {
            m.insert(k.into(), Value::from(small_int()));
        }
    }
    let mut r = Map::new();
    r.insert("x".into(), Value::Array(vec![Value::Object(m)]));
    let d = Value::Object(r);
    let want = nodes_ok(p.query(&d), &o, &d, 900);
    // the same truth value straight from the booleans is checked by the reference
    located_nodes_ok(p.query_located(&d), &want, 902);
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C09 longer expressions: n comparisons joined by any connectives, bracketed
/// in one of several ways. params: n, form, what it is an argument of, kind of terms
pub fn h_chain() {
    let (n, form, within, kind) = (param(0), param(1), param(2), param(3));
    let names = ["a", "b", "c", "d", "e", "f"];
    let m = pick(1 << (n - 1));
    let neg = pick(n + 1);
    let mut t = String::new();
    let mut open = 0;
    for i in 0..n {
        if i > 0 {
            t.push_str(["&&", "||"][m >> (i - 1) & 1]);
        }
        let bracket = match form {
            1 => i == n - 2,
            2 => i == 1,
            3 => (i > 0) & (i < n - 1),
            4 => i == 0,
            _ => false,
        };
        if bracket {
            t.push_str(if form == 4 { "!(" } else { "(" });
            open += 1;
        }
        let a = names[i];
        let term = match kind {
            0 => format!("@.{a}==1"),
            1 => format!("1==@['{a}']"),
            2 => format!("@[?@.{a}]"),
            3 => format!("has(@[?@.{a}])"),
            _ => [format!("@.{a}==1"), format!("q(@[0].{a})"), format!("@..{a}"), format!("1!=@.{a}")][i % 4].clone(),
        };
        t.push_str(&if neg == i { format!("!({term})") } else { term });
        let close = match form {
            2 | 4 => i == n - 2,
            _ => i == n - 1,
        };
        if close {
            for _ in 0..open {
                t.push(')');
            }
            open = 0;
        }
    }
    let t = ["{}", "neg({})", "if1({},1,0)==1", "all5({},@,1==1, {} ,1==2||{})", "mix(@[?{}], 1, {})==mix(@[?{}],1, {} )", "late9( {},1==0)||!neg( {} )&&{}"][within].replace("{}", &t);
    let t = format!("$.x[?{t}]");
    let (p, o) = both(&t);
    let mut m = Map::new();
    for k in &names[..n] {
        let v = flag();
        if v | (kind < 2) {
            m.insert(k.to_string(), Value::from(v as i64));
        }
    }
    let mut r = Map::new();
    r.insert("x".into(), Value::Array(vec![if kind < 2 { Value::Object(m) } else { Value::Array(vec![Value::Object(m)]) }]));
    let d = Value::Object(r);
    let want = nodes_ok(p.query(&d), &o, &d, 950);
    reach(if want.is_empty() { 2 } else { 1 });
}
pub static FILTERS: &[&str] = &[
    "$[?@]", "$[?@.a]", "$[?!@.a]", "$[?@.*]", "$[?@..a]", "$[?@[0]]", "$[?@[?@.a]]", "$[?@[?@>1]]", "$[?$.a]", "$[?$.a.b]", "$[?@.a||@.b]", "$[?@.a&&@.b]", "$[?@.a,?@.b]", "$[?@.a,?@.a]",
    "$..[?@.a]", "$[?@.a].a", "$[?@.a==$.a]", "$[?@.a!=@.b]", "$[?count(@.*)==1]", "$[?length(@)==1]", "$[?value(@.*)>0]", "$[?@==$.a]", "$[?@['a']['b']]", "$[?!(@.a&&@.b)]",
    "$[?@[?$.a]]", "$[?@[?!@]]", "$..[?@[?@.a||@.b]]", "$[?@.a==null]", "$[?@.a!=null]", "$[?@[0]<@[1]]", "$[?@>=2&&@<=3||@==5]",
];
/// C09 filters on every document of the given depth and width. params:
/// filter, depth, width
pub fn h_filter() {
    let (i, depth, width) = (param(0), param(1), param(2));
    let (p, o) = both(FILTERS[i]);
    let d = doc(depth, width, &mut 0);
    let want = nodes_ok(p.query(&d), &o, &d, 910);
    observe(1, want.len() as u64);
    located_nodes_ok(p.query_located(&d), &want, 912);
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C09 existence is presence: any value at all counts, whatever it is
pub fn h_exist() {
    let k = param(0);
    let v = kind_value(k, 1);
    let t = ["$[?@.l]", "$[?@['l']]", "$[?@.*]", "$[?@]", "$[?!@.l]", "$[?@.l && @.l]", "$[?@..l]", "$[?!(@.r)]", "$[?@.r || @.l]", "$[?@.r]"][pick(10)];
    let (p, o) = both(t);
    let d = Value::Array(vec![row(Some(v), None), row(None, None)]);
    let want = nodes_ok(p.query(&d), &o, &d, 920);
    reach(if want.is_empty() { 2 } else { 1 });
}

/// C10 length of a string of n bytes: any UTF-8 content
pub fn h_len() {
    let (n, form) = (param(0), param(1));
    let s = string(n);
    let k = byte();
    assume(k <= 8);
    let t = ["$.x[?length(@.l)==@.r]", "$.x[?length(@.l)>=@.r]", "$.x[?length(value(@.l))==@.r]", "$.x[?@.r<length(@['l'])]"][form];
    let (p, o) = both(t);
    let d = under_x(row(Some(Value::String(s)), Some(Value::from(k))), None);
    let want = nodes_ok(p.query(&d), &o, &d, 1000);
    observe(1, want.len() as u64);
    reach(if want.is_empty() { 2 } else { 1 });
}
pub static FUNS: &[&str] = &[
    "$[?length(@)==@.a]", "$[?length(@)==0]", "$[?length(@)==1]", "$[?length(@)==2]", "$[?length(@.a)==1]", "$[?length(@.a)==length(@.b)]", "$[?count(@)==1]", "$[?count(@.*)==0]", "$[?count(@.*)==2]",
    "$[?count(@..*)>=3]", "$[?count(@.a)==0]", "$[?count(@[0,0])==2]", "$[?count(@['a','a'])==2]", "$[?count($.*)==2]", "$[?value(@.*)==value(@.*)]", "$[?value(@.a)==1]", "$[?value(@..a)>=1]",
    "$[?value(@[0,0])==value(@.zz)]", "$[?length(value(@.*))==1]", "$[?count(@.*)==length(@)]", "$[?length(@.a)<1]", "$[?length(@.zz)==value(@.zz)]", "$[?count(@[?@.a])==1]", "$[?value(@[?@>1])>2]",
    "$[?length(@)!=length(@)]", "$[?length(@)<=count(@.*)]",
];
/// C10 length, count and value on every document of the given depth and width
pub fn h_fun() {
    let (i, depth, width) = (param(0), param(1), param(2));
    let (p, o) = both(FUNS[i]);
    let d = doc(depth, width, &mut 0);
    let want = nodes_ok(p.query(&d), &o, &d, 1010);
    observe(1, want.len() as u64);
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C10 on every kind of value
pub fn h_funkind() {
    let k = param(0);
    let v = if k < KINDS { Some(kind_value(k, 2)) } else { None };
    let t = ["$[?length(@.l)==1]", "$[?length(@.l)>=0]", "$[?length(@.l)==@.zz]", "$[?count(@.l)==1]", "$[?count(@.l.*)>=1]", "$[?value(@.l)==@.l]", "$[?value(@.l.*)==@.zz]", "$[?length(value(@.l))==length(@.l)]", "$[?count(@..*)>2]"][pick(9)];
    let (p, o) = both(t);
    let d = Value::Array(vec![row(v, None)]);
    let want = nodes_ok(p.query(&d), &o, &d, 1020);
    reach(if want.is_empty() { 2 } else { 1 });
}

pub static PATS: &[&str] = &[
    "a", ".", "ab", "a|b", "a*", "a+b", "[a-c]", "[^a]", "a?b", "a{2}", ".*", "\\\\.", "(ab|a)b?", "", ".a", "é", "[à-ü]", "a|ab", "\\\\n", "[\\\\-a]", "a{1,2}b", "(a)|(b)c", "a||b", "[^\\\\r]", "a.", "(a|b)*c", "[b-]a", "\\\\\\\\",
    // not a regular expression: matches nothing
    "(", "a)(b", "[", "*", "a)|(b", "a{2", "+", "\\\\",
    // characters by category, and more forms
    "\\\\p{Zs}", "\\\\P{Cc}b", "[\\\\p{Sc}a]", "[^\\\\p{Pd}-]", "\\\\p{Lt}|\\\\p{Pc}", "\\\\p{Nd}", "a{0}b?", "a{1,}", "(a{1,2}){2}", "((a))", "()", "(a|)b", "[.]", "[a\\\\]]", "[\\\\n-\\\\r]", "\\\\{|\\\\}", "a,b", "[(|)]", "\\t", "[^ -~]", "(a?)*b", "(?a)", "a{2,1}", "[b-a]", "\\\\p{Q}",
];
/// C11 match and search with a pattern, on any subject of n bytes. params: n, pattern, form
pub fn h_regex() {
    let (n, i, form) = (param(0), param(1), param(2));
    let s = string(n);
    let f = ["match", "search"][form & 1];
    let t = if form < 2 { format!("$.x[?{f}(@.l,'{}')]", PATS[i]) } else { format!("$.x[?!{f}(@.l,@.r)]") };
    let (p, o) = both(&t);
    let r = PATS[i].replace("\\\\", "\\");
    let d = under_x(row(Some(Value::String(s)), Some(Value::String(r))), None);
    let want = nodes_ok(p.query(&d), &o, &d, 1100);
    observe(1, want.len() as u64);
    reach(if want.is_empty() { 2 } else { 1 });
}
/// C11 anything but two strings does not match. params: kinds of the two
pub fn h_regexkind() {
    let (a, b) = (param(0), param(1));
    let l = if a < KINDS { Some(kind_value(a, 1)) } else { None };
    let r = if b < KINDS { Some(if b == 4 { Value::String(".".into()) } else { kind_value(b, 1) }) } else { None };
    let both_strings = l.as_ref().map_or(false, |v| v.is_string()) & r.as_ref().map_or(false, |v| v.is_string());
    assume(!both_strings | (b == 4));
    let d = under_x(row(l, r), None);
    for (k, t) in ["$.x[?match(@.l,@.r)]", "$.x[?search(@.l,@.r)]", "$.x[?!match(@.l,@.r)]"].iter().enumerate() {
        let (p, o) = both(t);
        let got = nodes_ok(p.query(&d), &o, &d, 1110 + 2 * k as u64).len();
        if !both_strings {
            check(got == (k == 2) as usize, 1117 + k as u64);
        }
    }
    reach(if both_strings { 1 } else { 2 });
}
