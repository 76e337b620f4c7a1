//! Reader for textual LLVM IR (as printed by rustc --emit=llvm-ir): an index
//! over the module and a lazy per-function parser.

use crate::expr::{conc, msk, sx, E, O};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                let bits = *n * t.bits() as u64;
                bits.div_ceil(8)
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o as u64).div_ceil(a) * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field {} of {:?}", i, self)
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast, // includes ptrtoint / inttoptr of equal width
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Debug)]
pub enum Ins {
    Nop,
    Bin { op: O, ty: Ty, a: Op, b: Op, d: u32 },
    FNeg { ty: Ty, a: Op, d: u32 },
    ICmp { p: Pred, ty: Ty, a: Op, b: Op, d: u32 },
    FCmp { p: String, ty: Ty, a: Op, b: Op, d: u32 },
    Cast { c: Cast, from: Ty, to: Ty, a: Op, d: u32 },
    Gep { base: Op, off: u64, idx: Vec<(Op, u32, u64)>, d: u32 },
    Load { ty: Ty, p: Op, d: u32 },
    Store { ty: Ty, v: Op, p: Op },
    Select { ty: Ty, cty: Ty, c: Op, a: Op, b: Op, d: u32 },
    Call { d: Option<u32>, ret: Ty, f: Op, args: Vec<Op>, tys: Vec<Ty>, normal: Option<u32>, name: Option<Rc<str>>, cache: RefCell<Option<Callee>> },
    Asm { d: Option<u32>, ret: Ty, text: String, same: Option<Op> },
    Alloca { slot: Option<u64>, size: u64, n: Op, d: u32 },
    ExtractValue { a: Op, idx: Vec<u32>, d: u32 },
    InsertValue { a: Op, aty: Ty, b: Op, idx: Vec<u32>, d: u32 },
    ExtractElement { a: Op, i: Op, d: u32 },
    InsertElement { a: Op, ty: Ty, b: Op, i: Op, d: u32 },
    Shuffle { a: Op, b: Op, n: usize, mask: Vec<u32>, d: u32, ety: Ty },
    AtomicRmw { op: String, ty: Ty, p: Op, v: Op, d: u32 },
    CmpXchg { ty: Ty, p: Op, c: Op, n: Op, d: u32 },
    Copy { a: Op, d: u32 },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fun(u32),
    Builtin(u32),
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub frame: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sym {
    Global(u32),
    Func(u32),
    Decl(u32),
}

pub const FN_BASE: u64 = 0x4000_0000;
pub const GLOBAL_BASE: u64 = 16;

pub struct Module {
    pub src: &'static str,
    pub globals: Vec<(&'static str, usize)>, // name, offset of the text after '='
    pub funcs: Vec<(&'static str, usize, usize)>,
    pub decls: Vec<&'static str>,
    pub syms: HashMap<&'static str, Sym>,
    pub types: HashMap<&'static str, &'static str>,
    pub aliases: HashMap<&'static str, &'static str>,
    pub ctors: Vec<u32>,
    pub parsed: RefCell<HashMap<u32, Rc<Func>>>,
    wide: Cell<bool>,
}

pub struct Cur<'a> {
    pub s: &'a str,
    pub i: usize,
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s, i: 0 }
    }
    fn b(&self) -> &'a [u8] {
        self.s.as_bytes()
    }
    pub fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.b()[self.i], b' ' | b'\n' | b'\t') {
                self.i += 1;
            }
            if self.s[self.i..].starts_with("/*") {
                match self.s[self.i..].find("*/") {
                    Some(n) => self.i += n + 2,
                    None => return,
                }
            } else {
                return;
            }
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        self.b().get(self.i).copied().unwrap_or(0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at {:?}", t, &self.s[self.i..(self.i + 80).min(self.s.len())]);
        }
    }
    /// identifier-like word
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let b = self.b();
        while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || matches!(b[self.i], b'_' | b'.' | b'-' | b'+' | b'$')) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    /// name after % or @ (quoted or not)
    pub fn name(&mut self) -> &'a str {
        let b = self.b();
        if b[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            &self.s[st..j]
        } else {
            let st = self.i;
            while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || matches!(b[self.i], b'_' | b'.' | b'-' | b'$')) {
                self.i += 1;
            }
            &self.s[st..self.i]
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        self.ws();
        let b = self.b();
        let mut d = 0;
        loop {
            match b[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn num(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("number {:?}", w))
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let src: &'static str = Box::leak(String::from_utf8_lossy(&data).into_owned().into_boxed_str());
        let mut m = Module {
            src,
            globals: vec![],
            funcs: vec![],
            decls: vec![],
            syms: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            ctors: vec![],
            parsed: RefCell::new(HashMap::new()),
            wide: Cell::new(false),
        };
        let b = src.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = i + src[i..].find('\n').unwrap_or(src.len() - i);
            match b[i] {
                b'@' => {
                    let mut c = Cur { s: src, i: i + 1 };
                    let n = c.name();
                    c.expect("=");
                    let line = &src[c.i..e];
                    let is_alias = line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ");
                    if is_alias {
                        let at = line.rfind('@').unwrap();
                        let mut d = Cur { s: line, i: at + 1 };
                        let t = d.name();
                        m.aliases.insert(n, t);
                    } else {
                        let id = m.globals.len() as u32;
                        m.globals.push((n, c.i));
                        m.syms.insert(n, Sym::Global(id));
                        if line.contains("section \".init_array") {
                            m.ctors.push(id);
                        }
                    }
                    i = e + 1;
                }
                b'd' if src[i..].starts_with("define ") => {
                    let at = i + src[i..e].find('@').unwrap() + 1;
                    let mut c = Cur { s: src, i: at };
                    let n = c.name();
                    let end = e + src[e..].find("\n}\n").unwrap() + 1;
                    let id = m.funcs.len() as u32;
                    m.funcs.push((n, i, end));
                    m.syms.insert(n, Sym::Func(id));
                    i = end + 2;
                }
                b'd' if src[i..].starts_with("declare ") => {
                    let at = i + src[i..e].find('@').unwrap() + 1;
                    let mut c = Cur { s: src, i: at };
                    let n = c.name();
                    let id = m.decls.len() as u32;
                    m.decls.push(n);
                    m.syms.insert(n, Sym::Decl(id));
                    i = e + 1;
                }
                b'%' => {
                    let mut c = Cur { s: src, i: i + 1 };
                    let n = c.name();
                    c.expect("=");
                    c.expect("type");
                    m.types.insert(n, &src[c.i..e]);
                    i = e + 1;
                }
                b'!' => break,
                _ => i = e + 1,
            }
        }
        m
    }

    pub fn resolve(&self, name: &str) -> Sym {
        if let Some(s) = self.syms.get(name) {
            return *s;
        }
        if let Some(a) = self.aliases.get(name) {
            return self.resolve(a);
        }
        panic!("unknown symbol {}", name)
    }
    pub fn addr(&self, name: &str) -> u64 {
        match self.resolve(name) {
            Sym::Global(g) => (GLOBAL_BASE + g as u64) << 32,
            Sym::Func(f) => (FN_BASE + f as u64) << 32,
            Sym::Decl(d) => (FN_BASE + self.funcs.len() as u64 + d as u64) << 32,
        }
    }
    /// what a code address denotes
    pub fn code(&self, addr: u64) -> Option<Sym> {
        let o = addr >> 32;
        if addr & 0xffff_ffff != 0 || o < FN_BASE {
            return None;
        }
        let i = o - FN_BASE;
        if i < self.funcs.len() as u64 {
            Some(Sym::Func(i as u32))
        } else if i < (self.funcs.len() + self.decls.len()) as u64 {
            Some(Sym::Decl((i - self.funcs.len() as u64) as u32))
        } else {
            None
        }
    }

    pub fn ty(&self, c: &mut Cur) -> Ty {
        match c.peek() {
            b'[' => {
                c.expect("[");
                let n = c.num();
                c.expect("x");
                let t = self.ty(c);
                c.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                c.expect("<");
                if c.peek() == b'{' {
                    let t = self.struct_body(c, true);
                    c.expect(">");
                    return t;
                }
                let n = c.num();
                c.expect("x");
                let t = self.ty(c);
                c.expect(">");
                Ty::Vec(n, Rc::new(t))
            }
            b'{' => self.struct_body(c, false),
            b'%' => {
                c.expect("%");
                let n = c.name();
                let t = self.types.get(n).unwrap_or_else(|| panic!("type %{}", n));
                self.ty(&mut Cur::new(t))
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => {
                        let n = w[1..].parse().unwrap_or_else(|_| panic!("type {:?} at {:?}", w, &c.s[c.i..(c.i + 60).min(c.s.len())]));
                        if n > 128 {
                            self.wide.set(true);
                        }
                        Ty::Int(n)
                    }
                    _ => panic!("type {:?} at {:?}", w, &c.s[c.i..(c.i + 60).min(c.s.len())]),
                }
            }
        }
    }
    fn struct_body(&self, c: &mut Cur, packed: bool) -> Ty {
        c.expect("{");
        let mut v = vec![];
        if c.peek() != b'}' {
            loop {
                v.push(self.ty(c));
                if !c.eat(",") {
                    break;
                }
            }
        }
        c.expect("}");
        Ty::Struct(Rc::new(v), packed)
    }

    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let v = (0..t.nfields()).map(|i| self.zero(&t.field(i).1)).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::I(0),
        }
    }

    /// constant (no registers) of type `t`
    pub fn konst(&self, c: &mut Cur, t: &Ty) -> Val {
        match c.peek() {
            b'@' => {
                c.expect("@");
                let n = c.name();
                Val::I(self.addr(n) as u128)
            }
            b'<' => {
                c.expect("<");
                if c.peek() == b'{' {
                    let v = self.agg(c, "{", "}");
                    c.expect(">");
                    return v;
                }
                c.i -= 1;
                self.agg(c, "<", ">")
            }
            b'{' => self.agg(c, "{", "}"),
            b'[' => self.agg(c, "[", "]"),
            b'c' if c.b().get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut v = vec![];
                Self::cstr(c, |x| v.push(Val::I(x as u128)));
                Val::A(Rc::new(v))
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Val::I(1),
                    "false" => Val::I(0),
                    "null" | "none" => Val::I(0),
                    "undef" | "poison" | "zeroinitializer" => self.zero(t),
                    "splat" => {
                        c.expect("(");
                        let et = self.ty(c);
                        let v = self.konst(c, &et);
                        c.expect(")");
                        Val::A(Rc::new(vec![v; t.nfields()]))
                    }
                    "getelementptr" => {
                        loop {
                            if c.peek() == b'(' {
                                break;
                            }
                            let w = c.word();
                            if w == "inrange" {
                                c.skip_parens();
                            }
                        }
                        c.expect("(");
                        let et = self.ty(c);
                        c.expect(",");
                        let bt = self.ty(c);
                        let base = self.konst(c, &bt);
                        let mut a = int(&base) as u64;
                        let mut cur = et.clone();
                        let mut first = true;
                        while c.eat(",") {
                            let it = self.ty(c);
                            let k = self.konst(c, &it);
                            let k = sx(int(&k), it.bits()) as i64;
                            if first {
                                a = a.wrapping_add((k as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                let (o, ft) = match &cur {
                                    Ty::Struct(..) => cur.field(k as usize),
                                    _ => {
                                        let e = cur.field(0).1;
                                        ((k as u64).wrapping_mul(e.size()), e)
                                    }
                                };
                                a = a.wrapping_add(o);
                                cur = ft;
                            }
                        }
                        c.expect(")");
                        Val::I(a as u128)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                        c.expect("(");
                        let st = self.ty(c);
                        let v = self.konst(c, &st);
                        c.expect("to");
                        let dt = self.ty(c);
                        c.expect(")");
                        if dt.is_scalar() {
                            Val::I(int(&v) & msk(dt.bits()))
                        } else {
                            v
                        }
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        let op = match w {
                            "add" => O::Add,
                            "sub" => O::Sub,
                            "xor" => O::Xor,
                            _ => O::Mul,
                        };
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect("(");
                        let st = self.ty(c);
                        let a = self.konst(c, &st);
                        c.expect(",");
                        let st2 = self.ty(c);
                        let b = self.konst(c, &st2);
                        c.expect(")");
                        let w = st.bits();
                        Val::I(conc(op, w, w, int(&a), int(&b), 0, 0, w))
                    }
                    _ => match t {
                        Ty::F64 | Ty::F32 => Val::I(parse_float(w, t)),
                        _ => {
                            if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
                                return Val::I(u128::from_str_radix(h, 16).unwrap() & msk(t.bits()));
                            }
                            let v: i128 = if let Ok(v) = w.parse::<i128>() {
                                v
                            } else if let Ok(v) = w.parse::<u128>() {
                                v as i128
                            } else {
                                panic!("constant {:?} of {:?} at {:?}", w, t, &c.s[c.i.saturating_sub(20)..(c.i + 60).min(c.s.len())])
                            };
                            Val::I(v as u128 & msk(t.bits()))
                        }
                    },
                }
            }
        }
    }
    fn cstr(c: &mut Cur, mut f: impl FnMut(u8)) {
        let b = c.b();
        loop {
            match b[c.i] {
                b'"' => {
                    c.i += 1;
                    return;
                }
                b'\\' => {
                    let h = |x: u8| (x as char).to_digit(16);
                    if b[c.i + 1] == b'\\' {
                        f(b'\\');
                        c.i += 2;
                    } else {
                        f((h(b[c.i + 1]).unwrap() * 16 + h(b[c.i + 2]).unwrap()) as u8);
                        c.i += 3;
                    }
                }
                x => {
                    f(x);
                    c.i += 1;
                }
            }
        }
    }
    fn agg(&self, c: &mut Cur, o: &str, e: &str) -> Val {
        c.expect(o);
        let mut v = vec![];
        if !c.eat(e) {
            loop {
                let t = self.ty(c);
                v.push(self.konst(c, &t));
                if !c.eat(",") {
                    break;
                }
            }
            c.expect(e);
        }
        Val::A(Rc::new(v))
    }

    /// bytes of a constant initialiser
    fn init(&self, c: &mut Cur, t: &Ty, out: &mut [u8], off: u64) {
        if c.peek() == b'c' && c.b().get(c.i + 1) == Some(&b'"') {
            c.i += 2;
            let mut o = off as usize;
            Self::cstr(c, |x| {
                out[o] = x;
                o += 1;
            });
            return;
        }
        let w = c.peek_word();
        if matches!(w, "zeroinitializer" | "undef" | "poison") {
            c.word();
            return;
        }
        match (t, c.peek()) {
            (Ty::Arr(..), b'[') | (Ty::Struct(..), b'{') | (Ty::Struct(..), b'<') => {
                let packed = c.eat("<");
                let o = c.peek();
                c.i += 1;
                let close = if o == b'[' { "]" } else { "}" };
                let mut i = 0;
                if !c.eat(close) {
                    loop {
                        let ft = self.ty(c);
                        let (fo, _) = t.field(i);
                        self.init(c, &ft, out, off + fo);
                        i += 1;
                        if !c.eat(",") {
                            break;
                        }
                    }
                    c.expect(close);
                }
                if packed {
                    c.expect(">");
                }
            }
            _ => {
                let v = self.konst(c, t);
                self.put(t, &v, out, off);
            }
        }
    }
    fn put(&self, t: &Ty, v: &Val, out: &mut [u8], off: u64) {
        match v {
            Val::I(k) => {
                let n = t.size() as usize;
                for i in 0..n.min(16) {
                    out[off as usize + i] = (k >> (8 * i)) as u8;
                }
            }
            Val::A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    self.put(&ft, x, out, off + o);
                }
            }
            _ => unreachable!(),
        }
    }

    /// (bytes, is_constant)
    pub fn global_bytes(&self, g: u32) -> (Vec<u8>, bool) {
        let (name, off) = self.globals[g as usize];
        let e = off + self.src[off..].find('\n').unwrap();
        let mut c = Cur::new(&self.src[off..e]);
        let mut external = false;
        let konst;
        loop {
            let w = c.word();
            match w {
                "external" | "extern_weak" => external = true,
                "constant" => {
                    konst = true;
                    break;
                }
                "global" => {
                    konst = false;
                    break;
                }
                "thread_local" | "addrspace" => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                "" => panic!("global {}", name),
                _ => {}
            }
        }
        let t = self.ty(&mut c);
        let mut out = vec![0u8; t.size() as usize];
        if !external {
            self.init(&mut c, &t, &mut out, 0);
        }
        (out, konst)
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        if let Some(f) = self.parsed.borrow().get(&id) {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(id));
        self.parsed.borrow_mut().insert(id, f.clone());
        f
    }

    fn parse_func(&self, id: u32) -> Func {
        let (name, st, en) = self.funcs[id as usize];
        let text = &self.src[st..en];
        let eol = text.find('\n').unwrap();
        let head = &text[..eol];
        let mut fp = FP { m: self, regs: HashMap::new(), blocks: HashMap::new(), frame: 0 };
        // parameters
        let at = head.find('@').unwrap() + 1;
        let mut c = Cur { s: head, i: at };
        c.name();
        c.expect("(");
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    break;
                }
                let _t = self.ty(&mut c);
                fp.attrs(&mut c);
                if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    if n.bytes().all(|x| x.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    params.push(fp.reg(n));
                } else {
                    let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    unnamed += 1;
                    params.push(fp.reg(n));
                }
                if !c.eat(",") {
                    break;
                }
            }
        }
        // split into logical lines
        let body = &text[eol + 1..];
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut i = 0;
        let bb = body.as_bytes();
        while i < body.len() {
            let mut e = i + body[i..].find('\n').unwrap_or(body.len() - i);
            let l = &body[i..e];
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with("#dbg") {
                i = e + 1;
                continue;
            }
            let tl = l.trim_start();
            if tl.starts_with("switch ") && l.ends_with('[') {
                let k = body[e..].find("\n  ]").unwrap();
                let x = e + k + 4;
                e = x + body[x..].find('\n').unwrap_or(body.len() - x);
            } else {
                // continuation lines are indented by more than 4 columns
                while e + 1 < body.len() && body[e + 1..].starts_with("          ") {
                    let x = e + 1;
                    e = x + body[x..].find('\n').unwrap_or(body.len() - x);
                }
            }
            lines.push((i, e));
            i = e + 1;
        }
        let _ = bb;
        // block names first
        let mut bnames: Vec<&'static str> = vec![];
        let body: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(body) };
        for (k, &(s, e)) in lines.iter().enumerate() {
            let l = &body[s..e];
            if !l.starts_with(' ') {
                let n = label(l);
                bnames.push(n);
            } else if k == 0 {
                bnames.push(Box::leak(unnamed.to_string().into_boxed_str()));
            }
        }
        for (i, n) in bnames.iter().enumerate() {
            fp.blocks.insert(n, i as u32);
        }
        let mut blocks: Vec<Block> = vec![];
        for (k, &(s, e)) in lines.iter().enumerate() {
            let l = &body[s..e];
            if !l.starts_with(' ') {
                blocks.push(Block { name: label(l).to_string(), phis: vec![], ins: vec![] });
                continue;
            }
            if k == 0 {
                blocks.push(Block { name: "entry".into(), phis: vec![], ins: vec![] });
            }
            let first = blocks.len() == 1;
            let bl = blocks.last_mut().unwrap();
            // what cannot be read, or is wider than a word of the executor, stops
            // the path that comes to it, and only that
            let (n, p) = (bl.ins.len(), bl.phis.len());
            self.wide.set(false);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fp.line(l, &mut *bl, first))).is_ok();
            if !ok || self.wide.get() {
                bl.ins.truncate(n);
                bl.phis.truncate(p);
                bl.ins.push(Ins::Unsupported(l.trim().chars().take(120).collect()));
            }
        }
        Func { name: name.into(), id, nregs: fp.regs.len() as u32, params, blocks, frame: fp.frame }
    }
}

fn label(l: &'static str) -> &'static str {
    if let Some(r) = l.strip_prefix('"') {
        &r[..r.find('"').unwrap()]
    } else {
        &l[..l.find(':').unwrap()]
    }
}

pub fn int(v: &Val) -> u128 {
    match v {
        Val::I(k) => *k,
        _ => panic!("int of {:?}", v),
    }
}

fn parse_float(w: &str, t: &Ty) -> u128 {
    let w2 = w.strip_prefix('f').unwrap_or(w);
    if let Some(h) = w2.strip_prefix("0x") {
        let k = u64::from_str_radix(h, 16).unwrap();
        if *t == Ty::F32 && h.len() > 8 {
            return (f64::from_bits(k) as f32).to_bits() as u128;
        }
        return k as u128;
    }
    let v: f64 = match w {
        "+inf" | "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+nan" | "nan" | "+qnan" | "qnan" => f64::NAN,
        _ => w.parse().unwrap_or_else(|_| panic!("float {:?}", w)),
    };
    if *t == Ty::F32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}

struct FP<'m> {
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
    frame: u64,
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let k = self.regs.len() as u32;
        let n: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(n) };
        self.regs.insert(n, k);
        k
    }
    fn blk(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {}", n))
    }
    fn attrs(&self, c: &mut Cur) {
        loop {
            let p = c.peek();
            if !p.is_ascii_lowercase() {
                if p == b'"' {
                    // string attribute
                    c.i += 1;
                    while c.b()[c.i] != b'"' {
                        c.i += 1;
                    }
                    c.i += 1;
                    if c.eat("=") {
                        c.ws();
                        c.i += 1;
                        while c.b()[c.i] != b'"' {
                            c.i += 1;
                        }
                        c.i += 1;
                    }
                    continue;
                }
                return;
            }
            let save = c.i;
            let w = c.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr"
                | "splat" | "asm" | "c" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" => {
                    c.i = save;
                    return;
                }
                "align" => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    } else {
                        c.num();
                    }
                }
                _ => {
                    if w.is_empty() {
                        panic!("attrs at {:?}", &c.s[c.i..]);
                    }
                    if w.starts_with("f0x") {
                        c.i = save;
                        return;
                    }
                    if c.b().get(c.i) == Some(&b'(') {
                        c.skip_parens();
                    }
                }
            }
        }
    }
    fn operand(&mut self, c: &mut Cur, t: &Ty) -> Op {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return Op::R(self.reg(n));
        }
        Op::K(self.m.konst(c, t))
    }
    fn tyop(&mut self, c: &mut Cur) -> (Ty, Op) {
        let t = self.m.ty(c);
        self.attrs(c);
        let o = self.operand(c, &t);
        (t, o)
    }
    fn line(&mut self, l: &'static str, bl: &mut Block, first: bool) {
        let mut c = Cur::new(l);
        let mut d: Option<u32> = None;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            d = Some(self.reg(n));
            c.expect("=");
        }
        let opw = c.word();
        let bin = |o| Some(o);
        let bop = match opw {
            "add" => bin(O::Add),
            "sub" => bin(O::Sub),
            "mul" => bin(O::Mul),
            "udiv" => bin(O::UDiv),
            "urem" => bin(O::URem),
            "sdiv" => bin(O::SDiv),
            "srem" => bin(O::SRem),
            "and" => bin(O::And),
            "or" => bin(O::Or),
            "xor" => bin(O::Xor),
            "shl" => bin(O::Shl),
            "lshr" => bin(O::LShr),
            "ashr" => bin(O::AShr),
            "fadd" => bin(O::FAdd),
            "fsub" => bin(O::FSub),
            "fmul" => bin(O::FMul),
            "fdiv" => bin(O::FDiv),
            "frem" => bin(O::FRem),
            _ => None,
        };
        if let Some(op) = bop {
            flags(&mut c);
            let ty = self.m.ty(&mut c);
            let a = self.operand(&mut c, &ty);
            c.expect(",");
            let b = self.operand(&mut c, &ty);
            bl.ins.push(Ins::Bin { op, ty, a, b, d: d.unwrap() });
            return;
        }
        let cast = match opw {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cast::Bitcast),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            _ => None,
        };
        if let Some(k) = cast {
            flags(&mut c);
            let from = self.m.ty(&mut c);
            let a = self.operand(&mut c, &from);
            c.expect("to");
            let to = self.m.ty(&mut c);
            let mut k = k;
            if opw == "ptrtoint" || opw == "inttoptr" {
                if from.is_scalar() && to.is_scalar() {
                    let (x, y) = (from.bits(), to.bits());
                    if x > y {
                        k = Cast::Trunc;
                    } else if x < y {
                        k = Cast::ZExt;
                    }
                }
            }
            bl.ins.push(Ins::Cast { c: k, from, to, a, d: d.unwrap() });
            return;
        }
        match opw {
            "ret" => {
                let t = self.m.ty(&mut c);
                let v = if t == Ty::Void { None } else { Some(self.operand(&mut c, &t)) };
                bl.ins.push(Ins::Ret(v));
            }
            "br" => {
                if c.peek_word() == "label" {
                    let b = self.blk(&mut c);
                    bl.ins.push(Ins::Br(b));
                } else {
                    let t = self.m.ty(&mut c);
                    let v = self.operand(&mut c, &t);
                    c.expect(",");
                    let a = self.blk(&mut c);
                    c.expect(",");
                    let b = self.blk(&mut c);
                    bl.ins.push(Ins::CondBr(v, a, b));
                }
            }
            "switch" => {
                let t = self.m.ty(&mut c);
                let v = self.operand(&mut c, &t);
                c.expect(",");
                let def = self.blk(&mut c);
                c.expect("[");
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = self.m.ty(&mut c);
                    let k = int(&self.m.konst(&mut c, &ct));
                    c.expect(",");
                    let b = self.blk(&mut c);
                    cases.push((k, b));
                }
                bl.ins.push(Ins::Switch { w: t.bits(), v, def, cases });
            }
            "unreachable" => bl.ins.push(Ins::Unreachable),
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => bl.ins.push(Ins::Unsupported(opw.into())),
            "phi" => {
                flags(&mut c);
                let t = self.m.ty(&mut c);
                let mut v = vec![];
                loop {
                    c.expect("[");
                    let o = self.operand(&mut c, &t);
                    c.expect(",");
                    c.expect("%");
                    let n = c.name();
                    let b = *self.blocks.get(n).unwrap_or_else(|| panic!("phi block {}", n));
                    c.expect("]");
                    v.push((b, o));
                    if c.peek() == b',' {
                        let s = c.i;
                        c.expect(",");
                        if c.peek() != b'[' {
                            c.i = s;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                bl.phis.push((d.unwrap(), v));
            }
            "icmp" => {
                loop {
                    let w = c.peek_word();
                    if w == "samesign" {
                        c.word();
                    } else {
                        break;
                    }
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let ty = self.m.ty(&mut c);
                let a = self.operand(&mut c, &ty);
                c.expect(",");
                let b = self.operand(&mut c, &ty);
                bl.ins.push(Ins::ICmp { p, ty, a, b, d: d.unwrap() });
            }
            "fcmp" => {
                let mut p = c.word();
                while matches!(p, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    p = c.word();
                }
                let ty = self.m.ty(&mut c);
                let a = self.operand(&mut c, &ty);
                c.expect(",");
                let b = self.operand(&mut c, &ty);
                bl.ins.push(Ins::FCmp { p: p.into(), ty, a, b, d: d.unwrap() });
            }
            "fneg" => {
                flags(&mut c);
                let ty = self.m.ty(&mut c);
                let a = self.operand(&mut c, &ty);
                bl.ins.push(Ins::FNeg { ty, a, d: d.unwrap() });
            }
            "select" => {
                flags(&mut c);
                let (cty, cc) = self.tyop(&mut c);
                c.expect(",");
                let (ty, a) = self.tyop(&mut c);
                c.expect(",");
                let (_, b) = self.tyop(&mut c);
                bl.ins.push(Ins::Select { ty, cty, c: cc, a, b, d: d.unwrap() });
            }
            "freeze" => {
                let (_, a) = self.tyop(&mut c);
                bl.ins.push(Ins::Copy { a, d: d.unwrap() });
            }
            "alloca" => {
                let ty = self.m.ty(&mut c);
                let mut n = Op::K(Val::I(1));
                let mut align = 1;
                while c.eat(",") {
                    if c.peek_word() == "align" {
                        c.word();
                        align = c.num();
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        n = self.tyop(&mut c).1;
                    }
                }
                let size = ty.size();
                let mut slot = None;
                if first {
                    if let Op::K(Val::I(1)) = n {
                        let a = align.max(16);
                        self.frame = self.frame.div_ceil(a) * a;
                        slot = Some(self.frame);
                        self.frame += size.max(1) + 16;
                    }
                }
                bl.ins.push(Ins::Alloca { slot, size, n, d: d.unwrap() });
            }
            "load" => {
                loop {
                    let w = c.peek_word();
                    if w == "atomic" || w == "volatile" {
                        c.word();
                    } else {
                        break;
                    }
                }
                let ty = self.m.ty(&mut c);
                c.expect(",");
                let (_, p) = self.tyop(&mut c);
                bl.ins.push(Ins::Load { ty, p, d: d.unwrap() });
            }
            "store" => {
                loop {
                    let w = c.peek_word();
                    if w == "atomic" || w == "volatile" {
                        c.word();
                    } else {
                        break;
                    }
                }
                let (ty, v) = self.tyop(&mut c);
                c.expect(",");
                let (_, p) = self.tyop(&mut c);
                bl.ins.push(Ins::Store { ty, v, p });
            }
            "fence" => {}
            "getelementptr" => {
                loop {
                    let w = c.peek_word();
                    if w == "inrange" {
                        c.word();
                        c.skip_parens();
                    } else if matches!(w, "inbounds" | "nuw" | "nusw" | "nsw") {
                        c.word();
                    } else {
                        break;
                    }
                }
                let et = self.m.ty(&mut c);
                c.expect(",");
                let (bt, base) = self.tyop(&mut c);
                if bt != Ty::Ptr {
                    bl.ins.push(Ins::Unsupported("vector gep".into()));
                    return;
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut firsti = true;
                loop {
                    let s = c.i;
                    if !c.eat(",") {
                        break;
                    }
                    if c.peek() == b'!' {
                        c.i = s;
                        break;
                    }
                    let (it, o) = self.tyop(&mut c);
                    let scale;
                    if firsti {
                        scale = cur.size();
                        firsti = false;
                    } else if let Ty::Struct(..) = cur {
                        if let Op::K(Val::I(k)) = &o {
                            let (fo, ft) = cur.field(*k as usize);
                            off = off.wrapping_add(fo);
                            cur = ft;
                            continue;
                        }
                        panic!("gep struct index");
                    } else {
                        let e = cur.field(0).1;
                        scale = e.size();
                        cur = e;
                    }
                    match &o {
                        Op::K(Val::I(k)) => off = off.wrapping_add((sx(*k, it.bits()) as i64 as u64).wrapping_mul(scale)),
                        _ => idx.push((o, it.bits(), scale)),
                    }
                }
                bl.ins.push(Ins::Gep { base, off, idx, d: d.unwrap() });
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut c);
                let idx = self.idxs(&mut c);
                bl.ins.push(Ins::ExtractValue { a, idx, d: d.unwrap() });
            }
            "insertvalue" => {
                let (aty, a) = self.tyop(&mut c);
                c.expect(",");
                let (_, b) = self.tyop(&mut c);
                let idx = self.idxs(&mut c);
                bl.ins.push(Ins::InsertValue { a, aty, b, idx, d: d.unwrap() });
            }
            "extractelement" => {
                let (_, a) = self.tyop(&mut c);
                c.expect(",");
                let (_, i) = self.tyop(&mut c);
                bl.ins.push(Ins::ExtractElement { a, i, d: d.unwrap() });
            }
            "insertelement" => {
                let (ty, a) = self.tyop(&mut c);
                c.expect(",");
                let (_, b) = self.tyop(&mut c);
                c.expect(",");
                let (_, i) = self.tyop(&mut c);
                bl.ins.push(Ins::InsertElement { a, ty, b, i, d: d.unwrap() });
            }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut c);
                c.expect(",");
                let (_, b) = self.tyop(&mut c);
                c.expect(",");
                let mt = self.m.ty(&mut c);
                let mk = self.m.konst(&mut c, &mt);
                let mask = match mk {
                    Val::A(v) => v.iter().map(|x| int(x) as u32).collect(),
                    _ => unreachable!(),
                };
                let ety = t.field(0).1;
                bl.ins.push(Ins::Shuffle { a, b, n: t.nfields(), mask, d: d.unwrap(), ety });
            }
            "atomicrmw" => {
                let mut op = c.word();
                if op == "volatile" {
                    op = c.word();
                }
                let (_, p) = self.tyop(&mut c);
                c.expect(",");
                let (ty, v) = self.tyop(&mut c);
                bl.ins.push(Ins::AtomicRmw { op: op.into(), ty, p, v, d: d.unwrap() });
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let (_, p) = self.tyop(&mut c);
                c.expect(",");
                let (ty, cv) = self.tyop(&mut c);
                c.expect(",");
                let (_, n) = self.tyop(&mut c);
                bl.ins.push(Ins::CmpXchg { ty, p, c: cv, n, d: d.unwrap() });
            }
            "tail" | "musttail" | "notail" => {
                c.expect("call");
                self.call(&mut c, d, bl, false);
            }
            "call" => self.call(&mut c, d, bl, false),
            "invoke" => self.call(&mut c, d, bl, true),
            // landingpad clauses and the like never start a line here
            _ => bl.ins.push(Ins::Unsupported(format!("{} in {:?}", opw, l))),
        }
    }
    fn idxs(&mut self, c: &mut Cur) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let s = c.i;
            if !c.eat(",") {
                return v;
            }
            if c.peek() == b'!' {
                c.i = s;
                return v;
            }
            v.push(c.num() as u32);
        }
    }
    fn call(&mut self, c: &mut Cur, d: Option<u32>, bl: &mut Block, invoke: bool) {
        // flags, calling convention, return attributes
        loop {
            match c.peek() {
                b'{' | b'[' | b'<' | b'%' => break,
                _ => {}
            }
            let s = c.i;
            let w = c.word();
            if is_type_word(w) {
                c.i = s;
                break;
            }
            if w.is_empty() {
                panic!("call at {:?}", &c.s[c.i..]);
            }
            if w == "align" {
                if c.peek() == b'(' {
                    c.skip_parens();
                } else {
                    c.num();
                }
                continue;
            }
            if c.b().get(c.i) == Some(&b'(') {
                c.skip_parens();
            }
        }
        let ret = self.m.ty(c);
        if c.peek() == b'(' {
            c.skip_parens(); // function type (varargs)
        }
        if c.peek_word() == "asm" {
            let text = c.s[c.i..].to_string();
            // an empty (or comment-only) template tying its result to its
            // first operand is the identity
            let q: Vec<usize> = text.match_indices('"').map(|x| x.0).take(4).collect();
            let mut same = None;
            if q.len() == 4 {
                let (t, k) = (&text[q[0] + 1..q[1]], &text[q[2] + 1..q[3]]);
                let empty = t.is_empty() || (t.starts_with("/*") && t.find("*/") == Some(t.len() - 2));
                if empty && (k.starts_with("=r,0") || k.starts_with("=&r,0")) {
                    let at = c.i + q[3] + 1;
                    let mut c2 = Cur { s: c.s, i: at };
                    c2.expect("(");
                    same = Some(self.tyop(&mut c2).1);
                }
            }
            bl.ins.push(Ins::Asm { d, ret, text, same });
            return;
        }
        let f;
        let mut name: Option<Rc<str>> = None;
        if c.peek() == b'@' {
            c.i += 1;
            let n = c.name();
            for skip in ["llvm.experimental.noalias", "llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.donothing", "llvm.prefetch", "llvm.sideeffect", "llvm.invariant", "llvm.fake.use"] {
                if n.starts_with(skip) {
                    return;
                }
            }
            name = Some(n.into());
            f = Op::K(Val::I(self.m.addr(n) as u128));
        } else {
            f = self.operand(c, &Ty::Ptr);
        }
        c.expect("(");
        let mut args = vec![];
        let mut tys = vec![];
        if !c.eat(")") {
            loop {
                if c.peek_word() == "metadata" {
                    // skip to the next top-level comma or the closing paren
                    let mut depth = 0;
                    loop {
                        match c.b()[c.i] {
                            b'(' | b'{' => depth += 1,
                            b')' | b'}' if depth > 0 => depth -= 1,
                            b')' => break,
                            b',' if depth == 0 => break,
                            _ => {}
                        }
                        c.i += 1;
                    }
                    args.push(Op::K(Val::I(0)));
                    tys.push(Ty::Other);
                } else {
                    let (t, o) = self.tyop(c);
                    args.push(o);
                    tys.push(t);
                }
                if !c.eat(",") {
                    break;
                }
            }
            c.expect(")");
        }
        let mut normal = None;
        if invoke {
            let k = c.s[c.i..].find("to label ").expect("invoke target") + c.i;
            let mut c2 = Cur { s: c.s, i: k + 3 };
            normal = Some(self.blk(&mut c2));
        }
        bl.ins.push(Ins::Call { d, ret, f, args, tys, normal, name, cache: RefCell::new(None) });
    }
}

fn flags(c: &mut Cur) {
    loop {
        let w = c.peek_word();
        if matches!(
            w,
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "samesign"
        ) {
            c.word();
        } else {
            return;
        }
    }
}
