//! Sound interval pre-check: a condition whose negation holds for every value
//! inside of the byte ranges allowed by the path condition needs no solver.
//! A range [lo, hi] stands for the integers congruent (mod 2^w) to a member.
use crate::expr::*;
use std::collections::HashMap;

type Iv = Option<(i128, i128)>;

pub struct Ranges<'a> {
    pub cx: &'a Ctx,
    pub dom: HashMap<usize, (u8, u8)>,
    pub refine: HashMap<E, (i128, i128)>,
    pub memo: HashMap<E, Iv>,
}

fn uns(r: Iv, w: u32) -> (i128, i128) {
    let m = 1i128 << w;
    let top = (0, m - 1);
    match r {
        None => top,
        Some((lo, hi)) => {
            let k = lo.div_euclid(m);
            if hi.div_euclid(m) == k {
                (lo - k * m, hi - k * m)
            } else {
                top
            }
        }
    }
}
fn sig(r: Iv, w: u32) -> (i128, i128) {
    let m = 1i128 << w;
    let h = m / 2;
    let top = (-h, h - 1);
    match r {
        None => top,
        Some((lo, hi)) => {
            let k = (lo + h).div_euclid(m);
            if (hi + h).div_euclid(m) == k {
                (lo - k * m, hi - k * m)
            } else {
                top
            }
        }
    }
}

impl Ranges<'_> {
    /// Take bounds from constraints of the form e < k, k < e, e = k.
    pub fn learn(&mut self, c: E) {
        let (n, pos) = {
            let n = self.cx.n[c as usize];
            if n.op == O::Not {
                (self.cx.n[n.a as usize], false)
            } else {
                (n, true)
            }
        };
        let (ka, kb) = match n.op {
            O::Eq | O::Ult | O::Slt => (self.cx.is_const(n.a), self.cx.is_const(n.b)),
            _ => return,
        };
        let w = self.cx.w(n.a);
        if w > 64 || w < 2 {
            return;
        }
        let m = 1i128 << w;
        let (min, max) = if n.op == O::Slt { (-m / 2, m / 2 - 1) } else { (0, m - 1) };
        let sgn = |k: u128| {
            let k = k as i128;
            if n.op == O::Slt && k >= m / 2 {
                k - m
            } else {
                k
            }
        };
        let (e, lo, hi) = match (n.op, pos, ka, kb) {
            (O::Eq, true, None, Some(k)) => (n.a, k as i128, k as i128),
            (O::Ult | O::Slt, true, None, Some(k)) => (n.a, min, sgn(k) - 1),
            (O::Ult | O::Slt, false, None, Some(k)) => (n.a, sgn(k), max),
            (O::Ult | O::Slt, true, Some(k), None) => (n.b, sgn(k) + 1, max),
            (O::Ult | O::Slt, false, Some(k), None) => (n.b, min, sgn(k)),
            _ => return,
        };
        if lo > hi {
            return;
        }
        match self.refine.get_mut(&e) {
            None => {
                self.refine.insert(e, (lo, hi));
            }
            // only combine bounds of the same sign convention
            Some(r) => {
                if (r.0 < 0) == (lo < 0) || (r.0 >= 0 && lo >= 0) {
                    let x = (r.0.max(lo), r.1.min(hi));
                    if x.0 <= x.1 && r.0 >= 0 && lo >= 0 && hi < m / 2 && r.1 < m / 2 {
                        *r = x;
                    } else if hi - lo < r.1 - r.0 {
                        *r = (lo, hi);
                    }
                } else if hi - lo < r.1 - r.0 {
                    *r = (lo, hi);
                }
            }
        }
    }

    pub fn get(&mut self, e: E) -> Iv {
        if let Some(r) = self.memo.get(&e) {
            return *r;
        }
        let mut r = self.calc(e);
        let w = self.cx.w(e);
        if w <= 64 {
            if let Some((lo, hi)) = r {
                if hi - lo >= (1i128 << w) {
                    r = None;
                }
            }
            if let Some(&(lo, hi)) = self.refine.get(&e) {
                // both describe the value; intersect in the convention of the bound
                let x = if lo < 0 { sig(r, w) } else { uns(r, w) };
                let y = (x.0.max(lo), x.1.min(hi));
                if y.0 <= y.1 {
                    r = Some(y);
                }
            }
        }
        self.memo.insert(e, r);
        r
    }
    fn calc(&mut self, e: E) -> Iv {
        let n = self.cx.n[e as usize];
        let w = n.w as u32;
        if w > 64 {
            return None;
        }
        let m = 1i128 << w;
        let fit = |lo: i128, hi: i128| if hi - lo < m { Some((lo, hi)) } else { None };
        match n.op {
            O::Const => Some((n.k as i128, n.k as i128)),
            O::Var => self.dom.get(&(n.k as usize)).map(|d| (d.0 as i128, d.1 as i128)),
            O::Not => {
                let a = uns(self.get(n.a), 1);
                Some((1 - a.1, 1 - a.0))
            }
            O::Add | O::Sub | O::Mul => {
                let a = self.get(n.a)?;
                let b = self.get(n.b)?;
                match n.op {
                    O::Add => fit(a.0 + b.0, a.1 + b.1),
                    O::Sub => fit(a.0 - b.1, a.1 - b.0),
                    _ => {
                        let mut v = vec![];
                        for x in [a.0, a.1] {
                            for y in [b.0, b.1] {
                                v.push(x.checked_mul(y)?);
                            }
                        }
                        let (lo, hi) = (*v.iter().min()?, *v.iter().max()?);
                        fit(lo, hi)
                    }
                }
            }
            O::And => {
                let a = uns(self.get(n.a), w);
                let b = uns(self.get(n.b), w);
                if w == 1 {
                    return Some((a.0 & b.0, a.1 & b.1));
                }
                Some((0, a.1.min(b.1)))
            }
            O::Or | O::Xor => {
                let a = uns(self.get(n.a), w);
                let b = uns(self.get(n.b), w);
                if w == 1 && n.op == O::Or {
                    return Some((a.0 | b.0, a.1 | b.1));
                }
                let bits = 128 - (a.1 | b.1).leading_zeros();
                let lo = if n.op == O::Or { a.0.max(b.0) } else { 0 };
                Some((lo, (1i128 << bits) - 1))
            }
            O::UDiv | O::URem => {
                let k = self.cx.is_const(n.b)? as i128;
                if k == 0 {
                    return None;
                }
                let a = uns(self.get(n.a), w);
                if n.op == O::UDiv {
                    Some((a.0 / k, a.1 / k))
                } else if a.1 < k {
                    Some(a)
                } else {
                    Some((0, k - 1))
                }
            }
            O::Shl => {
                let k = self.cx.is_const(n.b)?;
                let a = self.get(n.a)?;
                if k >= w as u128 || k > 60 {
                    return None;
                }
                fit(a.0.checked_mul(1 << k)?, a.1.checked_mul(1 << k)?)
            }
            O::LShr => {
                let k = self.cx.is_const(n.b)?;
                if k >= w as u128 {
                    return Some((0, 0));
                }
                let a = uns(self.get(n.a), w);
                Some((a.0 >> k, a.1 >> k))
            }
            O::ZExt => Some(uns(self.get(n.a), self.cx.w(n.a))),
            O::SExt => Some(sig(self.get(n.a), self.cx.w(n.a))),
            O::Extract if n.k == 0 => {
                let wa = self.cx.w(n.a);
                if wa > 64 {
                    return None;
                }
                let a = self.get(n.a)?;
                fit(a.0, a.1)
            }
            O::Concat => {
                let wb = self.cx.w(n.b);
                let a = uns(self.get(n.a), self.cx.w(n.a));
                let b = uns(self.get(n.b), wb);
                Some(((a.0 << wb) + b.0, (a.1 << wb) + b.1))
            }
            O::Ite => {
                let c = uns(self.get(n.a), 1);
                if c.0 == 1 {
                    return self.get(n.b);
                }
                if c.1 == 0 {
                    return self.get(n.c);
                }
                let a = self.get(n.b)?;
                let b = self.get(n.c)?;
                fit(a.0.min(b.0), a.1.max(b.1))
            }
            O::Eq | O::Ult | O::Slt => {
                let wa = self.cx.w(n.a);
                if wa > 64 {
                    return None;
                }
                let (x, y) = (self.get(n.a), self.get(n.b));
                let dec = |t: bool, f: bool| if t { Some((1, 1)) } else if f { Some((0, 0)) } else { None };
                match n.op {
                    O::Eq => {
                        let (a, b) = (uns(x, wa), uns(y, wa));
                        let (c, d) = (sig(x, wa), sig(y, wa));
                        let apart = a.1 < b.0 || b.1 < a.0 || c.1 < d.0 || d.1 < c.0;
                        dec(a.0 == a.1 && a == b, apart)
                    }
                    O::Ult => {
                        let (a, b) = (uns(x, wa), uns(y, wa));
                        dec(a.1 < b.0, a.0 >= b.1)
                    }
                    _ => {
                        let (a, b) = (sig(x, wa), sig(y, wa));
                        dec(a.1 < b.0, a.0 >= b.1)
                    }
                }
            }
            _ => None,
        }
    }
}
