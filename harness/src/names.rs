//! C03, C13, C14: strings and names.
use crate::grammar::*;
use crate::oracle::{self, Elem};
use crate::sym::*;
use serde_json::{Map, Value};
use serde_json_path::JsonPath;

static STR: &[(&[u8], u8)] = &[
    (b"\xf0\x02\x84", b'\''),
    (b"\xf0\x02\x84", b'"'),
    (b"\xf0\x04\x84", b'\''),
    (b"\xf0\x04\x84", b'"'),
    (b"\\\xf0\x02\x84", b'\''),
    (b"\\\xf0\x02\x84", b'"'),
    (b"\x80\\\x80\x80", b'\''),
    (b"\\\x80\\\x80", b'"'),
    // 8: unicode escapes
    (b"\\u\xf0\x04\x87", b'\''),
    (b"\\u\xf0\x04\x87", b'"'),
    (b"\\u0\x80\x80\x80", b'\''),
    (b"\\ud\x87\x87\x87\\uDC00", b'\''),
    (b"\\uD\x87\x87\x87\\uDFff", b'"'),
    (b"\\uD83D\\u\xf0\x04\x87", b'\''),
    (b"\\ud8ab\\\x80\xf0\x02\x87cd", b'"'),
    (b"\\u\x8700\x87\\u\x87c0\x87", b'\''),
    (b"a\\u00\x87\x87b\x80", b'\''),
    (b"\\uDBFF\\uDF\x87\x87\x80", b'\''),
    // longer
    (b"\\u\xf0\x04\x87\\u\xf0\x03\x870", b'\''),
    (b"\xf0\x05\x84", b'\''),
    (b"\xf0\x05\x84", b'"'),
    (b"\\u\xf0\x05\x80", b'"'),
    // 22: around special characters; long
    (b"\x84\x84a\x84\\u000\x80\x84", b'\''),
    (b"\\u0000\x84\\u0020\x84\\ufeff\x84\\u00a0", b'"'),
    (b" \x84 \x84 ", b'\''),
    (b"\x84 \\n\\t\\\x80 ", b'"'),
    (b"\x800123456789abcdef0123456789abcdef0123456789abcdef0123456789abcd\x80\x80\x800123456789abcdef0123456789abcdef0123456789abcdef0123456789abcd\x80", b'\''),
    (b"\\u00\x87\x87\\u\x87000\\u1234\\n\\/\\u007\x87", b'"'),
    (b"\\\x80\\\x80\\\x80", b'\''),
    (b"\\uD83D\\uDE00\x84\x84\\uD83D\\uDE0\x87", b'\''),
    // 30: both halves of a pair at once
    (b"\\uD8\x87\x87\\uDF\x87\x87", b'\''),
    (b"\\uD\x87\x87f\\ud\x87f\x87", b'"'),
    (b"\\uD\x870\x87\\uD\x870\x87", b'\''),
];
/// C03 a string literal is accepted exactly when RFC 9535 allows it, and
/// stands for exactly the string the RFC says; as a name selector and as a
/// filter literal
pub fn h_str() {
    let (tpl, q) = STR[param(0)];
    let form = param(1);
    let mut t = match form {
        0 => b"$[".to_vec(),
        1 => b"$[?@==".to_vec(),
        _ => b"$[?length(".to_vec(),
    };
    t.push(q);
    t.extend(text(tpl));
    t.push(q);
    if form == 2 {
        t.extend(b")>0");
    }
    t.push(b']');
    let t = as_str(&t);
    let o = oracle::parse(t);
    let r = JsonPath::parse(t);
    observe(1, r.is_ok() as u64);
    check(r.is_ok() == o.is_ok(), 300);
    let (Ok(r), Ok(o)) = (r, o) else {
        reach(2);
        return;
    };
    reach(1);
    let alone = o.segs.len() == 1 && o.segs[0].sels.len() == 1;
    match (&o.segs[0].sels[0], form) {
        _ if !alone => {
            // a text that closed its quotes early: compare on the probe
            let d = probe();
            nodes_ok(r.query(&d), &o, &d, 306);
        }
        (oracle::Sel::Name(n), _) => {
            let mut m = Map::new();
            m.insert(n.clone(), Value::Bool(true));
            let d = Value::Object(m);
            let l = r.query(&d).all();
            check(l.len() == 1, 301);
            // and no other: one more character, one fewer, the raw text
            for k in 0..4 {
                let mut x = n.clone();
                match k {
                    0 => x.push('x'),
                    1 => x.push('\0'),
                    2 => x.insert(0, ' '),
                    _ => {
                        if x.pop().is_none() {
                            continue;
                        }
                    }
                }
                let mut m = Map::new();
                m.insert(x, Value::Null);
                let d = Value::Object(m);
                check(r.query(&d).is_empty(), 302);
            }
        }
        (oracle::Sel::Filter(oracle::Expr::Cmp(_, _, oracle::Prim::Lit(Value::String(s)))), 1) => {
            let mut x = s.clone();
            x.push('x');
            let d = Value::Array(vec![Value::String(x), Value::String(s.clone()), Value::Null]);
            let l = r.query(&d).all();
            check(l.len() == 1, 303);
            check(std::ptr::eq(l[0], &d[1]), 304);
        }
        (oracle::Sel::Filter(_), 2) => {
            let d = Value::Array(vec![Value::Null]);
            nodes_ok(r.query(&d), &o, &d, 305);
        }
        _ => {
            let d = probe();
            nodes_ok(r.query(&d), &o, &d, 307);
        }
    }
}

/// C13, C14: location of a node under symbolic names
fn named_doc(n: usize, ascii: bool) -> (Value, String) {
    let k = if ascii { class_string(n, ANY) } else { string(n) };
    let mut m = Map::new();
    m.insert(k.clone(), Value::Array(vec![Value::Null, Value::Bool(true)]));
    (Value::Object(m), k)
}
pub fn h_norm() {
    let (d, k) = named_doc(param(0), param(1) == 1);
    let p = JsonPath::parse("$.*[1]").unwrap();
    let l = p.query_located(&d).all();
    check(l.len() == 1, 1300);
    let n = &l[0];
    let want = oracle::normalized(&[Elem::Key(&k), Elem::Idx(1)]);
    let got = n.location().to_string();
    observe(1, got.len() as u64);
    check(got.as_bytes() == &want[..], 1301);
    // it is a query that finds exactly that node
    let back = JsonPath::parse(&got);
    check(back.is_ok(), 1302);
    let back = back.unwrap();
    let f = back.query(&d).all();
    check(f.len() == 1, 1303);
    check(std::ptr::eq(f[0], n.node()), 1304);
    // and printing that query's location again changes nothing
    let again = back.query_located(&d).all();
    check(again.len() == 1, 1305);
    check(again[0].location() == n.location(), 1306);
    check(again[0].location().to_string() == got, 1307);
    match serde_json::to_value(n.location()) {
        Ok(Value::String(s)) => check(s == got, 1308),
        _ => check(false, 1309),
    }
    reach(1);
    // the element alone prints as the text between the quotes
    let e = n.location().first().unwrap().to_string();
    let mut esc = vec![];
    oracle::escape(&k, &mut esc);
    if e.as_bytes() != &esc[..] {
        // recorded finding: a backslash is printed single, everything else as it should be
        let mut one = vec![];
        let mut i = 0;
        while i < esc.len() {
            one.push(esc[i]);
            if esc[i] == b'\\' && esc[i + 1] == b'\\' {
                i += 1;
            } else if esc[i] == b'\\' {
                one.push(esc[i + 1]);
                i += 1;
            }
            i += 1;
        }
        check(e.as_bytes() == &one[..], 1310);
        finding(9102);
    }
}
/// C13 indices and depth in normalized paths
pub fn h_normidx() {
    let deep = param(0);
    let i = pick(12);
    let mut d = Value::Array((0..12).map(|i| Value::from(i)).collect());
    let mut path = vec![Elem::Idx(i)];
    for _ in 0..deep {
        d = match pick(2) {
            0 => {
                path.insert(0, Elem::Key("k"));
                serde_json::json!({ "k": d })
            }
            _ => {
                path.insert(0, Elem::Idx(1));
                serde_json::json!([null, d])
            }
        };
    }
    let t = normalized_text(&path);
    let p = JsonPath::parse(&t);
    check(p.is_ok(), 1320);
    let l = p.unwrap().query_located(&d).all();
    check(l.len() == 1, 1321);
    check(l[0].node() == &Value::from(i), 1322);
    check(l[0].location().to_string() == t, 1323);
    check(path_is(l[0].location(), &path), 1324);
    let ptr = l[0].location().to_json_pointer();
    check(ptr.as_bytes() == &oracle::pointer(&path)[..], 1325);
    check(d.pointer(&ptr).map_or(false, |v| std::ptr::eq(v, l[0].node())), 1326);
    let e = serde_json::to_value(l[0].location().last().unwrap());
    check(e.ok() == Some(Value::from(i)), 1327);
    reach(1);
}
fn normalized_text(p: &[Elem]) -> String {
    String::from_utf8(oracle::normalized(p)).unwrap()
}
/// C14 JSON Pointer of a location
pub fn h_ptr() {
    let (d, k) = named_doc(param(0), param(1) == 1);
    let p = JsonPath::parse("$.*[1]").unwrap();
    let l = p.query_located(&d).all();
    check(l.len() == 1, 1400);
    let got = l[0].location().to_json_pointer();
    observe(1, got.len() as u64);
    let want = oracle::pointer(&[Elem::Key(&k), Elem::Idx(1)]);
    check(got.as_bytes() == &want[..], 1401);
    let f = d.pointer(&got);
    check(f.is_some(), 1402);
    check(std::ptr::eq(f.unwrap(), l[0].node()), 1403);
    reach(1);
}
/// C14 two names at once: the pointers of two nodes differ, and each finds its own
pub fn h_ptr2() {
    let n = param(0);
    let a = class_string(n, ANY);
    let b = class_string(param(1), ANY);
    let mut inner = Map::new();
    inner.insert(b.clone(), Value::Null);
    let mut m = Map::new();
    m.insert(a.clone(), Value::Object(inner));
    let d = Value::Object(m);
    let l = JsonPath::parse("$..*").unwrap().query_located(&d).all();
    check(l.len() == 2, 1410);
    let (p, q) = (l[0].location().to_json_pointer(), l[1].location().to_json_pointer());
    check(p.as_bytes() == &oracle::pointer(&[Elem::Key(&a)])[..], 1411);
    check(q.as_bytes() == &oracle::pointer(&[Elem::Key(&a), Elem::Key(&b)])[..], 1412);
    check(d.pointer(&p).map_or(false, |v| std::ptr::eq(v, l[0].node())), 1413);
    check(d.pointer(&q).map_or(false, |v| std::ptr::eq(v, l[1].node())), 1414);
    // the root has the empty pointer
    let r = JsonPath::parse("$").unwrap().query_located(&d).all();
    check(r[0].location().to_json_pointer().is_empty(), 1415);
    reach(1);
}
