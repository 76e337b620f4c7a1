//! Documents made for one query: everything it names is in them, so that
//! reading any part of it otherwise makes a difference.
use crate::oracle::{Arg, Call, Expr, Prim, Query, Seg, Sel};
use serde_json::{Map, Value};

fn merge(a: Value, b: Value) -> Value {
    match (a, b) {
        (Value::Object(mut m), Value::Object(n)) => {
            for (k, v) in n {
                let v = match m.remove(&k) {
                    Some(old) => merge(old, v),
                    None => v,
                };
                m.insert(k, v);
            }
            Value::Object(m)
        }
        (Value::Array(mut m), Value::Array(n)) => {
            for (i, v) in n.into_iter().enumerate() {
                if i < m.len() {
                    let old = std::mem::take(&mut m[i]);
                    m[i] = merge(old, v);
                } else {
                    m.push(v);
                }
            }
            Value::Array(m)
        }
        (a, Value::Number(_) | Value::Null) => a,
        (_, b) => b,
    }
}
/// a value in which the segments lead to `leaf`; `arr`: where a segment could
/// select from either, make it an array
fn lead(segs: &[Seg], leaf: &mut dyn FnMut() -> Value, arr: bool, depth: usize) -> Value {
    let Some((s, rest)) = segs.split_first() else {
        return leaf();
    };
    let mut names = vec![];
    let (mut most, mut filter) = (0, None);
    for x in &s.sels {
        match x {
            Sel::Name(n) => names.push(n),
            Sel::Index(_) | Sel::Slice(..) => most = 3,
            Sel::Wild => most = if most > 2 { most } else { 2 },
            Sel::Filter(e) => filter = Some(e),
        }
    }
    let v = if let Some(e) = filter {
        let mut v = if depth > 2 { vec![] } else { rows(e, arr, depth) };
        if !rest.is_empty() {
            v = v.into_iter().map(|r| merge(r, lead(rest, leaf, arr, depth + 1))).collect();
        }
        if names.is_empty() {
            Value::Array(v)
        } else {
            let mut m = Map::new();
            for n in names {
                m.insert(n.clone(), v.pop().unwrap_or_else(&mut *leaf));
            }
            Value::Object(m)
        }
    } else if names.is_empty() | (arr & (most > 0)) {
        Value::Array((0..most).map(|_| lead(rest, leaf, arr, depth)).collect())
    } else {
        let mut m = Map::new();
        for n in names {
            m.insert(n.clone(), lead(rest, leaf, arr, depth));
        }
        Value::Object(m)
    };
    if s.desc {
        Value::Array(vec![v.clone(), Value::Array(vec![Value::Null, v])])
    } else {
        v
    }
}
/// a query of an expression, and the literal it is compared with
type Place<'q> = (&'q Query, Option<&'q Value>);
fn in_prim<'q>(p: &'q Prim, l: Option<&'q Value>, o: &mut Vec<Place<'q>>) {
    match p {
        Prim::Lit(_) => {}
        Prim::Query(q) => o.push((q, l)),
        Prim::Func(c) => in_call(c, o),
    }
}
fn in_call<'q>(c: &'q Call, o: &mut Vec<Place<'q>>) {
    for a in &c.args {
        match a {
            Arg::Prim(p) => in_prim(p, None, o),
            Arg::Logical(e) => in_expr(e, o),
        }
    }
}
fn literal(p: &Prim) -> Option<&Value> {
    match p {
        Prim::Lit(v) => Some(v),
        _ => None,
    }
}
fn in_expr<'q>(e: &'q Expr, o: &mut Vec<Place<'q>>) {
    match e {
        Expr::Or(v) | Expr::And(v) => {
            for e in v {
                in_expr(e, o);
            }
        }
        Expr::Not(e) | Expr::Paren(e) => in_expr(e, o),
        Expr::Cmp(a, _, b) => {
            in_prim(a, literal(b), o);
            in_prim(b, literal(a), o);
        }
        Expr::Exist(q) => o.push((q, None)),
        Expr::Func(c) => in_call(c, o),
    }
}
fn other(v: &Value) -> Value {
    match v {
        Value::Null => Value::from(0),
        Value::Bool(b) => Value::Bool(!b),
        Value::Number(n) => Value::from(n.as_f64().unwrap() / 2.0 - 1.0),
        Value::String(s) => {
            let mut s = s.clone();
            s.push('x');
            Value::String(s)
        }
        v => v.clone(),
    }
}
/// values on which the expression comes out differently
fn rows(e: &Expr, arr: bool, depth: usize) -> Vec<Value> {
    let mut p = vec![];
    in_expr(e, &mut p);
    p.retain(|(q, _)| !q.root);
    let k = if p.len() > 7 { 7 } else { p.len() };
    let mut out = vec![];
    let mut row = |digits: &[u8]| {
        let mut r: Option<Value> = None;
        for (i, d) in digits.iter().enumerate() {
            if *d == 0 {
                continue;
            }
            let (q, l) = p[i];
            let mut leaf = || match (l, d) {
                (Some(l), 1) => l.clone(),
                (Some(l), _) => other(l),
                (None, d) => Value::from(*d),
            };
            let v = lead(&q.segs, &mut leaf, arr, depth + 1);
            r = Some(match r {
                Some(r) => merge(r, v),
                None => v,
            });
        }
        out.push(r.unwrap_or_else(|| Value::Object(Map::new())));
    };
    if k <= 2 {
        for a in 0..if k > 0 { 3 } else { 1 } {
            for b in 0..if k > 1 { 3 } else { 1 } {
                row(&[a, b][..k]);
            }
        }
    } else {
        for base in 0..2u8 {
            row(&vec![base; k]);
            for i in 0..k {
                let mut v = vec![base; k];
                v[i] = 1 - base;
                row(&v);
            }
        }
    }
    out
}
fn roots<'q>(segs: &'q [Seg], o: &mut Vec<Place<'q>>) {
    for s in segs {
        for x in &s.sels {
            if let Sel::Filter(e) = x {
                in_expr(e, o);
            }
        }
    }
}
fn mixed(segs: &[Seg]) -> bool {
    segs.iter().any(|s| s.sels.len() > 1 && s.sels.iter().any(|x| matches!(x, Sel::Name(_))) && s.sels.iter().any(|x| !matches!(x, Sel::Name(_) | Sel::Filter(_))))
}
/// the documents for a query
pub fn witnesses(q: &Query) -> Vec<Value> {
    let mut p = vec![];
    roots(&q.segs, &mut p);
    p.retain(|(q, _)| q.root);
    let mut out = vec![];
    for arr in 0..if mixed(&q.segs) { 2 } else { 1 } {
        let mut n = 0;
        let mut leaf = || {
            n += 1;
            Value::from(n)
        };
        let mut d = lead(&q.segs, &mut leaf, arr == 1, 0);
        for (q, l) in &p {
            let mut leaf = || l.cloned().unwrap_or(Value::from(1));
            d = merge(d, lead(&q.segs, &mut leaf, arr == 1, 1));
        }
        out.push(d);
    }
    out
}
