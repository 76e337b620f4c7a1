//! Hash-consed bit-vector / boolean / IEEE-754 expression DAG with an eager
//! simplifier. Width 1 terms are booleans.

use std::cell::RefCell;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var, // k = index of the symbolic byte
    Not, // w1
    And, // any width
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a = high, b = low
    Extract, // k = low bit, w = width
    ZExt,
    SExt,
    // floating point, operands are IEEE bit patterns (w 32 or 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FEq, // ordered equal
    FLt, // ordered less
    FLe,
    FIsNan,
    UToF, // result w
    SToF,
    FToU, // result w, RTZ (undefined out of range)
    FToS,
    FExt,  // f32 -> f64
    FTrunc, // f64 -> f32
    FSqrt,
    // to an integral value: toward zero, down, up, half away from zero, half to even
    RTrunc,
    RFloor,
    RCeil,
    RRound,
    REven,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type Mask = [u64; 2];

pub struct Ctx {
    pub n: Vec<Node>,
    pub mask: Vec<Mask>,
    pub fp: Vec<bool>,
    map: HashMap<Node, E>,
    canon: HashMap<E, E>,
    memo: RefCell<(Vec<u32>, Vec<u128>, u32)>, // eval memo: stamp, value, current stamp
}

pub fn msk(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub const FALSE: E = 1;
pub const TRUE: E = 2;

fn fun(w: u32, a: u128, f: fn(f64) -> f64, g: fn(f32) -> f32) -> u128 {
    if w == 64 {
        f(f64b(a)).to_bits() as u128
    } else {
        g(f32b(a)).to_bits() as u128
    }
}
fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}

/// Concrete semantics of one operator; `w` is the result width, `wa` the
/// width of the first operand.
pub fn conc(op: O, w: u32, wa: u32, a: u128, b: u128, c: u128, k: u128, wb: u32) -> u128 {
    let m = msk(w);
    match op {
        O::Const | O::Var => unreachable!(),
        O::Not => (!a) & m,
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
        O::Add => a.wrapping_add(b) & m,
        O::Sub => a.wrapping_sub(b) & m,
        O::Mul => a.wrapping_mul(b) & m,
        O::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        O::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        O::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x < 0 { 1u128 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        O::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        O::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << (b as u32)) & m
            }
        }
        O::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> (b as u32)
            }
        }
        O::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        O::Eq => (a == b) as u128,
        O::Ult => (a < b) as u128,
        O::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        O::Ite => {
            if a & 1 == 1 {
                b
            } else {
                c
            }
        }
        O::Concat => (a << wb) | b,
        O::Extract => (a >> (k as u32)) & m,
        O::ZExt => a,
        O::SExt => (sx(a, wa) as u128) & m,
        O::FAdd => fbin(w, a, b, |x, y| x + y, |x, y| x + y),
        O::FSub => fbin(w, a, b, |x, y| x - y, |x, y| x - y),
        O::FMul => fbin(w, a, b, |x, y| x * y, |x, y| x * y),
        O::FDiv => fbin(w, a, b, |x, y| x / y, |x, y| x / y),
        O::FRem => fbin(w, a, b, |x, y| x % y, |x, y| x % y),
        O::FEq => {
            if wa == 64 {
                (f64b(a) == f64b(b)) as u128
            } else {
                (f32b(a) == f32b(b)) as u128
            }
        }
        O::FLt => {
            if wa == 64 {
                (f64b(a) < f64b(b)) as u128
            } else {
                (f32b(a) < f32b(b)) as u128
            }
        }
        O::FLe => {
            if wa == 64 {
                (f64b(a) <= f64b(b)) as u128
            } else {
                (f32b(a) <= f32b(b)) as u128
            }
        }
        O::FIsNan => {
            if wa == 64 {
                f64b(a).is_nan() as u128
            } else {
                f32b(a).is_nan() as u128
            }
        }
        O::UToF => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        O::SToF => {
            let v = sx(a, wa);
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        O::FToU => {
            let v = if wa == 64 { f64b(a) } else { f32b(a) as f64 };
            (v as u128) & m
        }
        O::FToS => {
            let v = if wa == 64 { f64b(a) } else { f32b(a) as f64 };
            ((v as i128) as u128) & m
        }
        O::FExt => (f32b(a) as f64).to_bits() as u128,
        O::FTrunc => (f64b(a) as f32).to_bits() as u128,
        O::FSqrt => fun(w, a, f64::sqrt, f32::sqrt),
        O::RTrunc => fun(w, a, f64::trunc, f32::trunc),
        O::RFloor => fun(w, a, f64::floor, f32::floor),
        O::RCeil => fun(w, a, f64::ceil, f32::ceil),
        O::RRound => fun(w, a, f64::round, f32::round),
        O::REven => fun(w, a, f64::round_ties_even, f32::round_ties_even),
    }
}

fn fbin(w: u32, a: u128, b: u128, f: fn(f64, f64) -> f64, g: fn(f32, f32) -> f32) -> u128 {
    if w == 64 {
        f(f64b(a), f64b(b)).to_bits() as u128
    } else {
        g(f32b(a), f32b(b)).to_bits() as u128
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            n: Vec::new(),
            mask: Vec::new(),
            fp: Vec::new(),
            map: HashMap::new(),
            canon: HashMap::new(),
            memo: RefCell::new((Vec::new(), Vec::new(), 0)),
        };
        // index 0 is "no expression"
        c.n.push(Node { op: O::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.mask.push([0; 2]);
        c.fp.push(false);
        let f = c.cst(1, 0);
        let t = c.cst(1, 1);
        assert!(f == FALSE && t == TRUE);
        c
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn op(&self, e: E) -> O {
        self.n[e as usize].op
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as E;
        let mut m = [0u64; 2];
        let mut fp = false;
        match nd.op {
            O::Const => {}
            O::Var => {
                m[(nd.k / 64) as usize] |= 1 << (nd.k % 64);
            }
            _ => {
                for x in [nd.a, nd.b, nd.c] {
                    let mm = self.mask[x as usize];
                    m[0] |= mm[0];
                    m[1] |= mm[1];
                    fp |= self.fp[x as usize];
                }
                fp |= nd.op as u8 >= O::FAdd as u8;
            }
        }
        self.n.push(nd);
        self.mask.push(m);
        self.fp.push(fp);
        self.map.insert(nd, id);
        id
    }
    pub fn cst(&mut self, w: u32, k: u128) -> E {
        self.raw(Node { op: O::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & msk(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        assert!(i < 128, "more than 128 symbolic bytes");
        self.raw(Node { op: O::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    fn mk(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.raw(Node { op, w: w as u8, a, b, c, k })
    }

    pub fn not(&mut self, a: E) -> E {
        if a == FALSE {
            return TRUE;
        }
        if a == TRUE {
            return FALSE;
        }
        let n = self.n[a as usize];
        if n.w == 1 {
            if n.op == O::Not {
                return n.a;
            }
            self.mk(O::Not, 1, a, 0, 0, 0)
        } else {
            let m = self.cst(n.w as u32, !0);
            self.bin(O::Xor, a, m)
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(O::Eq, a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(O::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(O::Or, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.bin(O::Ult, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.bin(O::Ult, b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let cn = self.n[c as usize];
        if cn.op == O::Not {
            return self.ite(cn.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == TRUE {
                return self.or(c, b);
            }
            if a == FALSE {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == TRUE {
                let nc = self.not(c);
                return self.or(nc, a);
            }
            if b == FALSE {
                return self.and(c, a);
            }
        }
        // nested ite on the same condition
        let an = self.n[a as usize];
        if an.op == O::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.n[b as usize];
        if bn.op == O::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if bn.op == O::Ite && bn.b == a {
            let d = self.or(c, bn.a);
            return self.ite(d, a, bn.c);
        }
        // ite(c,1,0) of wider width -> zext
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if x == 1 && y == 0 {
                return self.zext(c, w);
            }
            if x == 0 && y == 1 {
                let nc = self.not(c);
                return self.zext(nc, w);
            }
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(wa < w);
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.cst(w, n.k),
            O::ZExt => self.zext(n.a, w),
            O::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let b = self.zext(n.b, w);
                let c = self.zext(n.c, w);
                self.ite(n.a, b, c)
            }
            _ => self.mk(O::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.cst(w, sx(n.k, wa) as u128),
            O::ZExt => self.zext(n.a, w),
            O::SExt => self.sext(n.a, w),
            _ if wa == 1 => {
                let o = self.cst(w, !0);
                let z = self.cst(w, 0);
                self.ite(a, o, z)
            }
            O::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let b = self.sext(n.b, w);
                let c = self.sext(n.c, w);
                self.ite(n.a, b, c)
            }
            _ => self.mk(O::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        let wa = n.w as u32;
        if lo == 0 && w == wa {
            return a;
        }
        assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        match n.op {
            O::Const => return self.cst(w, n.k >> lo),
            O::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            O::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            O::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.cst(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            O::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            O::Ite => {
                let bc = self.n[n.b as usize].op;
                let cc = self.n[n.c as usize].op;
                if bc == O::Const || cc == O::Const || bc == O::ZExt || cc == O::ZExt {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(O::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let nh = self.n[h as usize];
        let nl = self.n[l as usize];
        let w = nh.w as u32 + nl.w as u32;
        if nh.op == O::Const && nl.op == O::Const {
            return self.cst(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == O::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        // adjacent extracts
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        if nh.op == O::Extract && nh.a == l && nh.k == nl.w as u128 {
            return self.extract(l, 0, w);
        }
        // concat(extract(x,hi), concat(extract(x,mid), rest))
        if nl.op == O::Concat {
            let nlh = self.n[nl.a as usize];
            if nh.op == O::Extract && nlh.op == O::Extract && nh.a == nlh.a && nh.k == nlh.k + nlh.w as u128 {
                let x = self.extract(nh.a, nlh.k as u32, nlh.w as u32 + nh.w as u32);
                return self.concat(x, nl.b);
            }
            if nh.op == O::Const && nlh.op == O::Const {
                let x = self.cst((nh.w + nlh.w) as u32, (nh.k << nlh.w) | nlh.k);
                return self.concat(x, nl.b);
            }
        }
        if nl.op == O::ZExt && nh.op == O::Extract {
            // zext(x) low part with a real high part: concat(h, 0s, x)
            let wi = self.w(nl.a);
            let z = self.cst(nl.w as u32 - wi, 0);
            let hh = self.concat(h, z);
            return self.concat_raw(hh, nl.a);
        }
        // ite lifting on equal conditions
        if nh.op == O::Ite && nl.op == O::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        // right-assoc: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == O::Concat {
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        self.concat_raw(h, l)
    }
    fn concat_raw(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        self.mk(O::Concat, w, h, l, 0, 0)
    }

    fn const_leaves(&self, e: E, depth: u32) -> bool {
        // true if e is an ite tree where at least one branch at every level is constant
        let n = &self.n[e as usize];
        match n.op {
            O::Const => true,
            O::Ite if depth > 0 => {
                (self.n[n.b as usize].op == O::Const || self.n[n.b as usize].op == O::Ite && self.const_leaves(n.b, depth - 1))
                    || (self.n[n.c as usize].op == O::Const || self.n[n.c as usize].op == O::Ite && self.const_leaves(n.c, depth - 1))
            }
            _ => false,
        }
    }

    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        let wa = na.w as u32;
        debug_assert!(na.w == nb.w, "{:?} widths {} {}", op, na.w, nb.w);
        let w = match op {
            O::Eq | O::Ult | O::Slt | O::FEq | O::FLt | O::FLe => 1,
            _ => wa,
        };
        let (ca, cb) = (na.op == O::Const, nb.op == O::Const);
        if ca && cb {
            let r = conc(op, w, wa, na.k, nb.k, 0, 0, wa);
            return self.cst(w, r);
        }
        // commutative: constant on the right, else order by id
        match op {
            O::And | O::Or | O::Xor | O::Add | O::Mul | O::Eq => {
                if ca || (!cb && a > b) {
                    return self.bin(op, b, a);
                }
            }
            _ => {}
        }
        let m = msk(wa);
        match op {
            O::And => {
                if a == b {
                    return a;
                }
                if cb {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == m {
                        return a;
                    }
                    if na.op == O::And {
                        if let Some(k) = self.is_const(na.b) {
                            let x = self.cst(wa, k & nb.k);
                            return self.bin(O::And, na.a, x);
                        }
                    }
                    if wa > 1 {
                        // low mask
                        if (nb.k + 1).is_power_of_two() {
                            let l = (nb.k + 1).trailing_zeros();
                            let x = self.extract(a, 0, l);
                            return self.zext(x, wa);
                        }
                        // single contiguous run of ones: shift into place
                        let lo = nb.k.trailing_zeros();
                        let run = (nb.k >> lo).trailing_ones();
                        if (nb.k >> lo) >> (run.min(127)) == 0 && lo > 0 {
                            let x = self.extract(a, lo, run);
                            let z = self.cst(lo, 0);
                            let y = self.concat(x, z);
                            return self.zext(y, wa);
                        }
                        if na.op == O::Concat {
                            let wl = self.w(na.b);
                            let kl = self.cst(wl, nb.k);
                            let kh = self.cst(wa - wl, nb.k >> wl);
                            let h = self.bin(O::And, na.a, kh);
                            let l = self.bin(O::And, na.b, kl);
                            return self.concat(h, l);
                        }
                        if na.op == O::ZExt {
                            let wi = self.w(na.a);
                            let kl = self.cst(wi, nb.k);
                            let l = self.bin(O::And, na.a, kl);
                            return self.zext(l, wa);
                        }
                    }
                }
                if wa == 1 {
                    // x && !x
                    if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a {
                        return FALSE;
                    }
                    // absorption
                    if nb.op == O::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == O::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == O::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == O::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                }
            }
            O::Or => {
                if a == b {
                    return a;
                }
                if cb {
                    if nb.k == 0 {
                        return a;
                    }
                    if nb.k == m {
                        return b;
                    }
                    if wa > 1 && na.op == O::Concat {
                        let wl = self.w(na.b);
                        let kl = self.cst(wl, nb.k);
                        let kh = self.cst(wa - wl, nb.k >> wl);
                        let h = self.bin(O::Or, na.a, kh);
                        let l = self.bin(O::Or, na.b, kl);
                        return self.concat(h, l);
                    }
                    if wa > 1 && na.op == O::ZExt {
                        let wi = self.w(na.a);
                        if wi > 1 || nb.k & 1 == 0 {
                            let kl = self.cst(wi, nb.k);
                            let kh = self.cst(wa - wi, nb.k >> wi);
                            let l = self.bin(O::Or, na.a, kl);
                            return self.concat(kh, l);
                        }
                    }
                }
                if wa == 1 {
                    if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a {
                        return TRUE;
                    }
                    if nb.op == O::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == O::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == O::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if na.op == O::And && (na.a == b || na.b == b) {
                        return b;
                    }
                } else {
                    // disjoint parts: (h . 0) | zext(l)
                    if let Some(r) = self.try_disjoint(a, b, wa) {
                        return r;
                    }
                    if let Some(r) = self.try_disjoint(b, a, wa) {
                        return r;
                    }
                }
            }
            O::Xor => {
                if a == b {
                    return self.cst(wa, 0);
                }
                if cb {
                    if nb.k == 0 {
                        return a;
                    }
                    if wa == 1 {
                        return self.not(a);
                    }
                    if na.op == O::Xor {
                        if let Some(k) = self.is_const(na.b) {
                            let x = self.cst(wa, k ^ nb.k);
                            return self.bin(O::Xor, na.a, x);
                        }
                    }
                    if na.op == O::Concat {
                        let wl = self.w(na.b);
                        let kl = self.cst(wl, nb.k);
                        let kh = self.cst(wa - wl, nb.k >> wl);
                        let h = self.bin(O::Xor, na.a, kh);
                        let l = self.bin(O::Xor, na.b, kl);
                        return self.concat(h, l);
                    }
                    if na.op == O::ZExt {
                        let wi = self.w(na.a);
                        let kl = self.cst(wi, nb.k);
                        let kh = self.cst(wa - wi, nb.k >> wi);
                        let l = self.bin(O::Xor, na.a, kl);
                        return self.concat(kh, l);
                    }
                }
                if wa == 1 {
                    let e = self.mk(O::Eq, 1, a, b, 0, 0);
                    return self.not(e);
                }
                if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(O::Xor, na.a, nb.a);
                    return self.zext(x, wa);
                }
                if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.bin(O::Xor, na.a, nb.a);
                    let l = self.bin(O::Xor, na.b, nb.b);
                    return self.concat(h, l);
                }
            }
            O::Add => {
                if wa == 1 {
                    return self.bin(O::Xor, a, b);
                }
                if cb {
                    if nb.k == 0 {
                        return a;
                    }
                    if na.op == O::Add {
                        if let Some(k) = self.is_const(na.b) {
                            let x = self.cst(wa, k.wrapping_add(nb.k));
                            return self.bin(O::Add, na.a, x);
                        }
                    }
                    if na.op == O::Sub {
                        if let Some(k) = self.is_const(na.a) {
                            let x = self.cst(wa, k.wrapping_add(nb.k));
                            return self.bin(O::Sub, x, na.b);
                        }
                    }
                    if na.op == O::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let x = self.bin(O::Add, na.b, b);
                        let y = self.bin(O::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // float constants to the outside: (x+k)+y -> (x+y)+k
                    if na.op == O::Add && self.is_const(na.b).is_some() {
                        let x = self.bin(O::Add, na.a, b);
                        return self.bin(O::Add, x, na.b);
                    }
                    if nb.op == O::Add && self.is_const(nb.b).is_some() {
                        let x = self.bin(O::Add, nb.a, a);
                        return self.bin(O::Add, x, nb.b);
                    }
                    // (x - y) + y
                    if na.op == O::Sub && na.b == b {
                        return na.a;
                    }
                    if nb.op == O::Sub && nb.b == a {
                        return nb.a;
                    }
                }
            }
            O::Sub => {
                if a == b {
                    return self.cst(wa, 0);
                }
                if wa == 1 {
                    return self.bin(O::Xor, a, b);
                }
                if cb {
                    let k = self.cst(wa, 0u128.wrapping_sub(nb.k));
                    return self.bin(O::Add, a, k);
                }
                if na.op == O::Add && na.b == b {
                    return na.a;
                }
                if na.op == O::Add && na.a == b {
                    return na.b;
                }
                if na.op == O::Add && nb.op == O::Add && na.a == nb.a {
                    return self.bin(O::Sub, na.b, nb.b);
                }
                if na.op == O::Add && self.is_const(na.b).is_some() {
                    let x = self.bin(O::Sub, na.a, b);
                    return self.bin(O::Add, x, na.b);
                }
                if nb.op == O::Add {
                    if let Some(k) = self.is_const(nb.b) {
                        let x = self.bin(O::Sub, a, nb.a);
                        let kk = self.cst(wa, 0u128.wrapping_sub(k));
                        return self.bin(O::Add, x, kk);
                    }
                }
            }
            O::Mul => {
                if cb {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == 1 {
                        return a;
                    }
                    if wa == 1 {
                        return a;
                    }
                    if nb.k.is_power_of_two() {
                        let s = self.cst(wa, nb.k.trailing_zeros() as u128);
                        return self.bin(O::Shl, a, s);
                    }
                    if na.op == O::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let x = self.bin(O::Mul, na.b, b);
                        let y = self.bin(O::Mul, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else if wa == 1 {
                    return self.bin(O::And, a, b);
                }
            }
            O::UDiv => {
                if cb && nb.k == 1 {
                    return a;
                }
                if cb && nb.k.is_power_of_two() {
                    let s = self.cst(wa, nb.k.trailing_zeros() as u128);
                    return self.bin(O::LShr, a, s);
                }
                if cb && na.op == O::ZExt {
                    let wi = self.w(na.a);
                    if nb.k <= msk(wi) && nb.k != 0 {
                        let k = self.cst(wi, nb.k);
                        let x = self.bin(O::UDiv, na.a, k);
                        return self.zext(x, wa);
                    }
                }
            }
            O::URem => {
                if cb && nb.k.is_power_of_two() {
                    let k = self.cst(wa, nb.k - 1);
                    return self.bin(O::And, a, k);
                }
                if cb && na.op == O::ZExt {
                    let wi = self.w(na.a);
                    if nb.k <= msk(wi) && nb.k != 0 {
                        let k = self.cst(wi, nb.k);
                        let x = self.bin(O::URem, na.a, k);
                        return self.zext(x, wa);
                    }
                }
            }
            O::Shl | O::LShr => {
                if cb {
                    if nb.k == 0 {
                        return a;
                    }
                    if nb.k >= wa as u128 {
                        return self.cst(wa, 0);
                    }
                    let k = nb.k as u32;
                    if op == O::Shl {
                        let x = self.extract(a, 0, wa - k);
                        let z = self.cst(k, 0);
                        return self.concat(x, z);
                    } else {
                        let x = self.extract(a, k, wa - k);
                        return self.zext(x, wa);
                    }
                }
                if ca && na.k == 0 {
                    return a;
                }
            }
            O::AShr => {
                if cb {
                    if nb.k == 0 {
                        return a;
                    }
                    let k = (nb.k.min(wa as u128 - 1)) as u32;
                    if na.op == O::ZExt {
                        return self.bin(O::LShr, a, b);
                    }
                    let x = self.extract(a, k, wa - k);
                    return self.sext(x, wa);
                }
            }
            O::Eq => {
                if a == b {
                    return TRUE;
                }
                if wa == 1 {
                    if cb {
                        return if nb.k == 1 { a } else { self.not(a) };
                    }
                    if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a {
                        return FALSE;
                    }
                }
                if cb {
                    match na.op {
                        O::ZExt => {
                            let wi = self.w(na.a);
                            if nb.k > msk(wi) {
                                return FALSE;
                            }
                            let k = self.cst(wi, nb.k);
                            return self.eq(na.a, k);
                        }
                        O::SExt => {
                            let wi = self.w(na.a);
                            let t = nb.k & msk(wi);
                            if (sx(t, wi) as u128) & m != nb.k {
                                return FALSE;
                            }
                            let k = self.cst(wi, t);
                            return self.eq(na.a, k);
                        }
                        O::Concat => {
                            let wl = self.w(na.b);
                            let kl = self.cst(wl, nb.k);
                            let kh = self.cst(wa - wl, nb.k >> wl);
                            let h = self.eq(na.a, kh);
                            if h == FALSE {
                                return FALSE;
                            }
                            let l = self.eq(na.b, kl);
                            return self.and(h, l);
                        }
                        O::Ite if self.const_leaves(a, 40) => {
                            let x = self.eq(na.b, b);
                            let y = self.eq(na.c, b);
                            return self.ite(na.a, x, y);
                        }
                        O::Add => {
                            if let Some(k) = self.is_const(na.b) {
                                let x = self.cst(wa, nb.k.wrapping_sub(k));
                                return self.eq(na.a, x);
                            }
                        }
                        O::Sub => {
                            if let Some(k) = self.is_const(na.a) {
                                let x = self.cst(wa, k.wrapping_sub(nb.k));
                                return self.eq(na.b, x);
                            }
                            if nb.k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        O::Xor => {
                            if let Some(k) = self.is_const(na.b) {
                                let x = self.cst(wa, k ^ nb.k);
                                return self.eq(na.a, x);
                            }
                            if nb.k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        O::Or if nb.k == 0 => {
                            let x = self.eq(na.a, b);
                            if x == FALSE {
                                return FALSE;
                            }
                            let y = self.eq(na.b, b);
                            return self.and(x, y);
                        }
                        O::Extract if nb.w == 1 => {}
                        _ => {}
                    }
                } else {
                    if na.op == O::ZExt && nb.op == O::ZExt {
                        let (x, y) = (self.w(na.a), self.w(nb.a));
                        if x == y {
                            return self.eq(na.a, nb.a);
                        }
                        let (s, l) = if x < y { (na.a, nb.a) } else { (nb.a, na.a) };
                        let s = { let wl = self.w(l); self.zext(s, wl) };
                        return self.eq(s, l);
                    }
                    if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.eq(na.a, nb.a);
                        let l = self.eq(na.b, nb.b);
                        return self.and(h, l);
                    }
                    if na.op == O::Add && nb.op == O::Add {
                        if na.b == nb.b {
                            return self.eq(na.a, nb.a);
                        }
                        if na.a == nb.a {
                            return self.eq(na.b, nb.b);
                        }
                    }
                    if na.op == O::SExt && nb.op == O::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.eq(na.a, nb.a);
                    }
                }
            }
            O::Ult => {
                if a == b {
                    return FALSE;
                }
                if cb {
                    if nb.k == 0 {
                        return FALSE;
                    }
                    if nb.k == 1 {
                        let z = self.cst(wa, 0);
                        return self.eq(a, z);
                    }
                    if nb.k == m {
                        let x = self.eq(a, b);
                        return self.not(x);
                    }
                    match na.op {
                        O::ZExt => {
                            let wi = self.w(na.a);
                            if nb.k > msk(wi) {
                                return TRUE;
                            }
                            let k = self.cst(wi, nb.k);
                            return self.ult(na.a, k);
                        }
                        O::Concat => {
                            let wl = self.w(na.b);
                            let kl = nb.k & msk(wl);
                            let kh = self.cst(wa - wl, nb.k >> wl);
                            let hl = self.ult(na.a, kh);
                            if kl == 0 {
                                return hl;
                            }
                            let he = self.eq(na.a, kh);
                            let klc = self.cst(wl, kl);
                            let ll = self.ult(na.b, klc);
                            let t = self.and(he, ll);
                            return self.or(hl, t);
                        }
                        O::Ite if self.const_leaves(a, 40) => {
                            let x = self.ult(na.b, b);
                            let y = self.ult(na.c, b);
                            return self.ite(na.a, x, y);
                        }
                        _ => {}
                    }
                } else if ca {
                    if na.k == m {
                        return FALSE;
                    }
                    if na.k == 0 {
                        let x = self.eq(b, a);
                        return self.not(x);
                    }
                    // k < b  <=>  !(b < k+1)
                    let k = self.cst(wa, na.k + 1);
                    let x = self.ult(b, k);
                    return self.not(x);
                } else {
                    if na.op == O::ZExt && nb.op == O::ZExt {
                        let (x, y) = (self.w(na.a), self.w(nb.a));
                        let mx = x.max(y);
                        let p = self.zext(na.a, mx);
                        let q = self.zext(nb.a, mx);
                        return self.ult(p, q);
                    }
                }
            }
            O::Slt => {
                if a == b {
                    return FALSE;
                }
                if wa == 1 {
                    let nbb = self.not(b);
                    return self.and(a, nbb);
                }
                let za = na.op == O::ZExt || ca && sx(na.k, wa) >= 0;
                let zb = nb.op == O::ZExt || cb && sx(nb.k, wa) >= 0;
                if za && zb {
                    return self.ult(a, b);
                }
                if cb {
                    match na.op {
                        O::ZExt => return FALSE, // b negative
                        O::Ite if self.const_leaves(a, 40) => {
                            let x = self.bin(O::Slt, na.b, b);
                            let y = self.bin(O::Slt, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                        O::SExt => {
                            let wi = self.w(na.a);
                            let lo = sx(1u128 << (wi - 1), wi);
                            let hi = sx(msk(wi - 1), wi);
                            let k = sx(nb.k, wa);
                            if k > hi {
                                return TRUE;
                            }
                            if k <= lo {
                                return FALSE;
                            }
                            let kk = self.cst(wi, k as u128);
                            return self.bin(O::Slt, na.a, kk);
                        }
                        O::Concat if nb.k == 0 => {
                            // sign bit test
                            let s = self.extract(a, wa - 1, 1);
                            return s;
                        }
                        _ => {}
                    }
                } else if ca {
                    // k < b <=> !(b < k+1)
                    if sx(na.k, wa) == sx(msk(wa - 1), wa) {
                        return FALSE;
                    }
                    let k = self.cst(wa, na.k.wrapping_add(1));
                    let x = self.bin(O::Slt, b, k);
                    return self.not(x);
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn try_disjoint(&mut self, hi: E, lo: E, w: u32) -> Option<E> {
        // hi = concat(h, 0:k), lo < 2^k
        let nh = self.n[hi as usize];
        let (nh, top) = if nh.op == O::ZExt && self.n[nh.a as usize].op == O::Concat {
            (self.n[nh.a as usize], w - self.w(nh.a))
        } else {
            (nh, 0)
        };
        if nh.op != O::Concat {
            return None;
        }
        if self.is_const(nh.b) != Some(0) {
            return None;
        }
        let k = self.w(nh.b);
        let nl = self.n[lo as usize];
        let li = match nl.op {
            O::ZExt if self.w(nl.a) <= k => self.zext(nl.a, k),
            O::Const if nl.k <= msk(k) => self.cst(k, nl.k),
            _ => return None,
        };
        let x = self.concat(nh.a, li);
        let x = if top > 0 { self.zext(x, w) } else { x };
        Some(x)
    }

    pub fn fun1(&mut self, op: O, w: u32, a: E) -> E {
        if let Some(k) = self.is_const(a) {
            let wa = self.w(a);
            let r = conc(op, w, wa, k, 0, 0, 0, 0);
            return self.cst(w, r);
        }
        self.mk(op, w, a, 0, 0, 0)
    }

    /// does a converted integer occur in a floating-point term?
    pub fn from_int(&self, e: E) -> bool {
        let mut todo = vec![e];
        let mut seen = 0;
        while let Some(e) = todo.pop() {
            if !self.fp[e as usize] {
                continue;
            }
            let n = self.n[e as usize];
            seen += 1;
            if matches!(n.op, O::UToF | O::SToF) || seen > 200 {
                return true;
            }
            todo.extend([n.a, n.b, n.c]);
        }
        false
    }

    /// All-in-one constructor used by instantiation.
    fn rebuild(&mut self, n: Node, a: E, b: E, c: E) -> E {
        match n.op {
            O::Const | O::Var => unreachable!(),
            O::Not => self.not(a),
            O::Ite => self.ite(a, b, c),
            O::Concat => self.concat(a, b),
            O::Extract => self.extract(a, n.k as u32, n.w as u32),
            O::ZExt => self.zext(a, n.w as u32),
            O::SExt => self.sext(a, n.w as u32),
            O::FIsNan | O::UToF | O::SToF | O::FToU | O::FToS | O::FExt | O::FTrunc | O::FSqrt | O::RTrunc | O::RFloor | O::RCeil | O::RRound | O::REven => self.fun1(n.op, n.w as u32, a),
            _ => self.bin(n.op, a, b),
        }
    }

    /// Rename the single byte variable of `e` to variable 0 (for query caching).
    pub fn canon1(&mut self, e: E) -> E {
        let m = self.mask[e as usize];
        if m == [1, 0] || m == [0, 0] {
            return e;
        }
        if let Some(&x) = self.canon.get(&e) {
            return x;
        }
        let n = self.n[e as usize];
        let r = match n.op {
            O::Const => e,
            O::Var => self.var(0),
            _ => {
                let a = if n.a != 0 { self.canon1(n.a) } else { 0 };
                let b = if n.b != 0 { self.canon1(n.b) } else { 0 };
                let c = if n.c != 0 { self.canon1(n.c) } else { 0 };
                self.rebuild(n, a, b, c)
            }
        };
        self.canon.insert(e, r);
        r
    }

    pub fn single_var(&self, e: E) -> Option<usize> {
        let m = self.mask[e as usize];
        if m[0].count_ones() + m[1].count_ones() != 1 {
            return None;
        }
        Some(if m[0] != 0 { m[0].trailing_zeros() as usize } else { 64 + m[1].trailing_zeros() as usize })
    }

    /// Evaluate under a full assignment of the byte variables.
    pub fn eval(&self, e: E, model: &[u8]) -> u128 {
        let mut memo = self.memo.borrow_mut();
        memo.2 += 1;
        let st = memo.2;
        let need = self.n.len();
        if memo.0.len() < need {
            let cap = need + need / 2;
            memo.0.resize(cap, 0);
            memo.1.resize(cap, 0);
        }
        let mm = &mut *memo;
        self.ev(e, model, &mut mm.0, &mut mm.1, st)
    }
    fn ev(&self, e: E, model: &[u8], stamp: &mut [u32], val: &mut [u128], st: u32) -> u128 {
        let n = &self.n[e as usize];
        match n.op {
            O::Const => return n.k,
            O::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if stamp[e as usize] == st {
            return val[e as usize];
        }
        let a = self.ev(n.a, model, stamp, val, st);
        let r = match n.op {
            O::Ite => {
                if a & 1 == 1 {
                    self.ev(n.b, model, stamp, val, st)
                } else {
                    self.ev(n.c, model, stamp, val, st)
                }
            }
            _ => {
                let b = if n.b != 0 { self.ev(n.b, model, stamp, val, st) } else { 0 };
                let wa = self.w(n.a);
                let wb = if n.b != 0 { self.w(n.b) } else { 0 };
                conc(n.op, n.w as u32, wa, a, b, 0, n.k, wb)
            }
        };
        stamp[e as usize] = st;
        val[e as usize] = r;
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.n[e as usize];
        match n.op {
            O::Const => format!("{:#x}:{}", n.k, n.w),
            O::Var => format!("b{}", n.k),
            _ if depth == 0 => "…".into(),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == O::Extract {
                    s += &format!("[{}+{}]", n.k, n.w);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
