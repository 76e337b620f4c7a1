//! The symbolic interpreter.
use crate::expr::*;
use crate::range::Ranges;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack: u32, // object id of the frame, 0 if none
    pub extra: Vec<u32>,
    pub ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub known: Rc<HashMap<E, u128>>,
    pub model: Rc<Vec<u8>>,
    pub nsym: usize,
    pub steps: u64,
    pub obs: Vec<(u64, Val)>,
    pub forks: u32,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Panic(String),
    Assert(u64),
    Pruned, // assume(false) or no feasible continuation
    Limit(String),
    Unsupported(String),
    MemErr(String),
}
type R<T> = Result<T, Stop>;

pub struct Opts {
    pub entry: String,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub time: f64,
    pub samples: usize,
    pub stop_first: bool,
    pub trace: bool,
    pub concrete: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub model: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub model: Vec<u8>,
    pub obs: Vec<(u64, u64)>,
}

#[derive(Clone)]
enum Cached {
    Unsat,
    Sat(Vec<(usize, u8)>),
}

pub struct Exec {
    pub m: &'static Module,
    pub cx: Ctx,
    pub z3: Z3,
    pub o: Opts,
    pub work: Vec<State>,
    cache: HashMap<Vec<E>, Cached>,
    pub cache_hits: u64,
    pub small_fp: u64,
    pub by_range: u64,
    crosscheck: bool,
    domains: HashMap<Vec<E>, (u8, u8)>,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub viols: Vec<Viol>,
    /// violations that are not among the recorded findings
    pub fresh: u64,
    pub findings: HashMap<String, u64>,
    pub samples: Vec<Sample>,
    pub done: u64,
    pub pruned: u64,
    pub forks: u64,
    pub incomplete: Vec<String>,
    pub reach: BTreeMap<u64, u64>,
    pub steps: u64,
    pub funcs_seen: HashMap<u32, u64>,
    pub asserts: u64,
    pub maxsym: usize,
    pub builtins: Vec<String>,
    bmap: HashMap<String, u32>,
    start: Instant,
    pub fork_sites: HashMap<String, u64>,
    errno: u32,
    strtab: u32,
}

fn iv(k: u128) -> Val {
    Val::I(k)
}

impl Exec {
    pub fn new(m: &'static Module, o: Opts, timeout_ms: u32) -> Exec {
        Exec {
            m,
            cx: Ctx::new(),
            z3: Z3::new(timeout_ms),
            o,
            work: vec![],
            cache: HashMap::new(),
            cache_hits: 0,
            small_fp: 0,
            by_range: 0,
            crosscheck: std::env::var("SYMEX_CROSSCHECK").is_ok(),
            domains: HashMap::new(),
            gcache: HashMap::new(),
            viols: vec![],
            fresh: 0,
            findings: HashMap::new(),
            samples: vec![],
            done: 0,
            pruned: 0,
            forks: 0,
            incomplete: vec![],
            reach: BTreeMap::new(),
            steps: 0,
            funcs_seen: HashMap::new(),
            asserts: 0,
            maxsym: 0,
            builtins: vec![],
            bmap: HashMap::new(),
            start: Instant::now(),
            fork_sites: HashMap::new(),
            errno: 0,
            strtab: 0,
        }
    }

    pub fn init_state(&mut self) -> State {
        let first = GLOBAL_BASE as u32 + self.m.globals.len() as u32 + 64;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(first),
            cons: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            nsym: 0,
            steps: 0,
            obs: vec![],
            forks: 0,
        };
        self.errno = st.mem.alloc(8);
        self.strtab = st.mem.alloc(16);
        st
    }

    /// run all constructors then the entry point, exploring every path
    pub fn run(&mut self) {
        let mut st = self.init_state();
        for g in &self.m.ctors.clone() {
            let (b, _) = self.m.global_bytes(*g);
            let a = u64::from_le_bytes(b[..8].try_into().unwrap());
            match self.m.code(a) {
                Some(Sym::Func(f)) => {
                    let n = self.m.funcs[f as usize].0;
                    if n.contains("ARGV_INIT_ARRAY") {
                        continue;
                    }
                    self.push_call(&mut st, f, vec![], None).ok();
                    match self.step_loop(&mut st) {
                        Stop::Done => {}
                        x => {
                            self.incomplete.push(format!("constructor {}: {:?}", n, x));
                            return;
                        }
                    }
                }
                _ => continue,
            }
        }
        let f = match self.m.resolve(&self.o.entry) {
            Sym::Func(f) => f,
            _ => panic!("entry"),
        };
        let n = self.m.func(f).params.len();
        assert!(n == 0, "entry takes no parameters");
        st.steps = 0;
        self.push_call(&mut st, f, vec![], None).ok();
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.o.time {
                self.incomplete.push(format!("time limit with {} pending states", self.work.len() + 1));
                return;
            }
            let s0 = st.steps;
            let r = self.step_loop(&mut st);
            self.steps += st.steps - s0;
            if st.nsym > self.maxsym {
                self.maxsym = st.nsym;
            }
            match r {
                Stop::Done => {
                    self.done += 1;
                    let n = self.done;
                    if self.samples.len() < self.o.samples / 2 || (self.samples.len() < self.o.samples && n % 37 == 0) {
                        let obs = st
                            .obs
                            .iter()
                            .map(|(t, v)| {
                                (
                                    *t,
                                    match v {
                                        Val::I(k) => *k as u64,
                                        Val::S(e) => self.cx.eval(*e, &st.model) as u64,
                                        _ => 0,
                                    },
                                )
                            })
                            .collect();
                        self.samples.push(Sample { model: self.model_bytes(&st), obs });
                    }
                }
                Stop::Pruned => self.pruned += 1,
                Stop::Panic(m) => self.viol(&st, "panic", m),
                Stop::Assert(i) => self.viol(&st, "assert", i.to_string()),
                Stop::Limit(m) => {
                    if m.starts_with("steps") || m.starts_with("stack") {
                        self.viol(&st, "hang", m)
                    } else {
                        self.incomplete.push(m);
                        if self.incomplete.len() > 20 {
                            return;
                        }
                    }
                }
                Stop::MemErr(m) => {
                    let bt = self.backtrace(&st);
                    self.incomplete.push(format!("memory error: {} {}", m, bt));
                    if self.incomplete.len() > 20 {
                        return;
                    }
                }
                Stop::Unsupported(m) => {
                    let bt = self.backtrace(&st);
                    self.incomplete.push(format!("unsupported: {} {}", m, bt));
                    if self.incomplete.len() > 5 {
                        return;
                    }
                }
            }
            if self.fresh > 0 && self.o.stop_first {
                return;
            }
            if self.fresh >= 12 {
                return;
            }
        }
    }

    fn model_bytes(&self, st: &State) -> Vec<u8> {
        (0..st.nsym).map(|i| st.model.get(i).copied().unwrap_or(0)).collect()
    }

    fn viol(&mut self, st: &State, kind: &str, msg: String) {
        let bt = self.backtrace(st);
        if kind == "finding" {
            // a deviation the harness recognises: keep two instances, and go on
            let n = self.findings.entry(msg.clone()).or_insert(0);
            *n += 1;
            if *n > 2 {
                return;
            }
        } else {
            self.fresh += 1;
        }
        self.viols.push(Viol { kind: kind.into(), msg: format!("{} @ {}", msg, bt), model: self.model_bytes(st) });
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(12) {
            s += &demangle(&f.f.name);
            s += " < ";
        }
        s
    }

    // ---------------------------------------------------------------- solver

    fn ask(&mut self, cons: &[E]) -> R<Cached> {
        // cons: complete slice, sorted & dedup'd by the caller
        let mut key: Vec<E> = cons.to_vec();
        let mut single: Option<usize> = None;
        let mut ok = true;
        for &e in cons {
            match self.cx.single_var(e) {
                Some(v) if single.is_none() || single == Some(v) => single = Some(v),
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        let canon = ok && single.is_some() && single != Some(0);
        if canon {
            key = key.iter().map(|&e| self.cx.canon1(e)).collect();
            key.sort_unstable();
            key.dedup();
        }
        if let Some(c) = self.cache.get(&key) {
            self.cache_hits += 1;
            let c = c.clone();
            return Ok(match c {
                Cached::Sat(v) if canon => Cached::Sat(v.iter().map(|&(_, b)| (single.unwrap(), b)).collect()),
                c => c,
            });
        }
        if key.iter().any(|&e| self.cx.fp[e as usize]) {
            if let Some(r) = self.small_domain(&key) {
                self.cache.insert(key, r.clone());
                return Ok(match r {
                    Cached::Sat(v) if canon => Cached::Sat(v.iter().map(|&(_, b)| (single.unwrap(), b)).collect()),
                    c => c,
                });
            }
        }
        let r = match self.z3.check(&self.cx, &key) {
            Res::Sat(v) => {
                // self-check of translation and evaluator
                let mut m = vec![0u8; 128];
                for &(i, b) in &v {
                    m[i] = b;
                }
                for &e in &key {
                    if self.cx.eval(e, &m) != 1 && !self.cx.fp[e as usize] {
                        panic!("model does not satisfy {}", self.cx.show(e, 6));
                    }
                    if self.cx.eval(e, &m) != 1 {
                        return Err(Stop::Limit("fp model mismatch".into()));
                    }
                }
                Cached::Sat(v)
            }
            Res::Unsat => Cached::Unsat,
            Res::Unknown => return Err(Stop::Limit("solver gave no answer within its limit".into())),
        };
        self.cache.insert(key, r.clone());
        Ok(match r {
            Cached::Sat(v) if canon => Cached::Sat(v.iter().map(|&(_, b)| (single.unwrap(), b)).collect()),
            c => c,
        })
    }

    /// Decide a floating-point constraint set over a few bytes exactly by
    /// propagating the single-byte constraints and checking the remaining
    /// product; None when that product is too large.
    fn small_domain(&mut self, key: &[E]) -> Option<Cached> {
        let mut m = [0u64; 2];
        for &e in key {
            let k = self.cx.mask[e as usize];
            m[0] |= k[0];
            m[1] |= k[1];
        }
        if m[0].count_ones() + m[1].count_ones() > 6 {
            return None;
        }
        let vars: Vec<usize> = (0..128).filter(|&i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        let mut model = vec![0u8; 128];
        let mut doms: Vec<Vec<u8>> = vec![];
        let mut total = 1usize;
        for &v in &vars {
            let single: Vec<E> = key.iter().copied().filter(|&e| self.cx.single_var(e) == Some(v)).collect();
            let mut d = vec![];
            for x in 0..=255u8 {
                model[v] = x;
                if single.iter().all(|&e| self.cx.eval(e, &model) == 1) {
                    d.push(x);
                }
            }
            total = total.saturating_mul(d.len());
            if total > 30_000 {
                return None;
            }
            doms.push(d);
        }
        let rest: Vec<E> = key.iter().copied().filter(|&e| self.cx.single_var(e).is_none()).collect();
        self.small_fp += 1;
        for mut i in 0..total {
            for (j, &v) in vars.iter().enumerate() {
                model[v] = doms[j][i % doms[j].len()];
                i /= doms[j].len();
            }
            if rest.iter().all(|&e| self.cx.eval(e, &model) == 1) {
                return Some(Cached::Sat(vars.iter().map(|&v| (v, model[v])).collect()));
            }
        }
        Some(Cached::Unsat)
    }

    /// Does interval reasoning over the slice already exclude the condition?
    fn excluded(&mut self, s: &[E], cond: E) -> bool {
        let mut per: HashMap<usize, Vec<E>> = HashMap::new();
        for &c in s {
            if let (Some(v), false) = (self.cx.single_var(c), self.cx.fp[c as usize]) {
                per.entry(v).or_default().push(c);
            }
        }
        let mut dom = HashMap::new();
        for (v, l) in per {
            let d = match self.domains.get(&l) {
                Some(d) => *d,
                None => {
                    let mut model = vec![0u8; 128];
                    let (mut lo, mut hi) = (255u8, 0u8);
                    for x in 0..=255u8 {
                        model[v] = x;
                        if l.iter().all(|&e| self.cx.eval(e, &model) == 1) {
                            lo = lo.min(x);
                            hi = hi.max(x);
                        }
                    }
                    if lo > hi {
                        return true;
                    }
                    self.domains.insert(l, (lo, hi));
                    (lo, hi)
                }
            };
            dom.insert(v, d);
        }
        let mut r = Ranges { cx: &self.cx, dom, refine: HashMap::new(), memo: HashMap::new() };
        for &c in s {
            if c != cond && self.cx.single_var(c).is_none() {
                r.learn(c);
            }
        }
        r.get(cond) == Some((0, 0))
    }

    fn slice(&self, st: &State, cond: E) -> Vec<E> {
        let mut m = self.cx.mask[cond as usize];
        let mut out = vec![cond];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let k = self.cx.mask[c as usize];
                if k[0] & m[0] != 0 || k[1] & m[1] != 0 {
                    used[i] = true;
                    out.push(c);
                    if k[0] & !m[0] != 0 || k[1] & !m[1] != 0 {
                        m[0] |= k[0];
                        m[1] |= k[1];
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// Is cond satisfiable together with the path condition? Returns a model.
    fn feasible(&mut self, st: &State, cond: E) -> R<Option<Rc<Vec<u8>>>> {
        if cond == TRUE {
            return Ok(Some(st.model.clone()));
        }
        if cond == FALSE {
            return Ok(None);
        }
        if self.cx.eval(cond, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let s = self.slice(st, cond);
        if self.cx.single_var(cond).is_none() && !self.cx.fp[cond as usize] && self.excluded(&s, cond) {
            self.by_range += 1;
            if self.crosscheck {
                if let Cached::Sat(_) = self.ask(&s)? {
                    panic!("interval reasoning disagrees with the solver: {}", self.cx.show(cond, 8));
                }
            }
            return Ok(None);
        }
        match self.ask(&s)? {
            Cached::Unsat => Ok(None),
            Cached::Sat(v) => {
                let mut m = (*st.model).clone();
                m.resize(m.len().max(st.nsym), 0);
                for (i, b) in v {
                    m[i] = b;
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }

    fn simp(&mut self, st: &State, e: E, depth: u32) -> E {
        if let Some(&k) = st.known.get(&e) {
            let w = self.cx.w(e);
            return self.cx.cst(w, k);
        }
        if depth == 0 {
            return e;
        }
        let n = self.cx.n[e as usize];
        match n.op {
            O::Not => {
                let a = self.simp(st, n.a, depth - 1);
                if a != n.a {
                    self.cx.not(a)
                } else {
                    e
                }
            }
            O::And | O::Or | O::Xor | O::Add | O::Sub | O::Mul | O::Eq | O::Ult | O::Slt | O::UDiv | O::URem => {
                let a = self.simp(st, n.a, depth - 1);
                let b = self.simp(st, n.b, depth - 1);
                if a != n.a || b != n.b {
                    self.cx.bin(n.op, a, b)
                } else {
                    e
                }
            }
            O::Ite => {
                let a = self.simp(st, n.a, depth - 1);
                if a == TRUE {
                    return self.simp(st, n.b, depth);
                }
                if a == FALSE {
                    return self.simp(st, n.c, depth);
                }
                e
            }
            O::ZExt => {
                let a = self.simp(st, n.a, depth - 1);
                if a != n.a {
                    self.cx.zext(a, n.w as u32)
                } else {
                    e
                }
            }
            O::Concat => {
                let a = self.simp(st, n.a, depth - 1);
                let b = self.simp(st, n.b, depth - 1);
                if a != n.a || b != n.b {
                    self.cx.concat(a, b)
                } else {
                    e
                }
            }
            _ => e,
        }
    }

    fn learn(&mut self, st: &mut State, e: E, v: u128) {
        let kn = Rc::make_mut(&mut st.known);
        kn.insert(e, v);
        let n = self.cx.n[e as usize];
        if n.w == 1 {
            match n.op {
                O::Not => self.learn(st, n.a, 1 - v),
                O::Eq if v == 1 => {
                    if let Some(k) = self.cx.is_const(n.b) {
                        Rc::make_mut(&mut st.known).insert(n.a, k);
                    }
                }
                O::And if v == 1 => {
                    self.learn(st, n.a, 1);
                    self.learn(st, n.b, 1);
                }
                O::Or if v == 0 => {
                    self.learn(st, n.a, 0);
                    self.learn(st, n.b, 0);
                }
                _ => {}
            }
        }
    }

    fn constrain(&mut self, st: &mut State, c: E) {
        if c == TRUE {
            return;
        }
        let n = self.cx.n[c as usize];
        if n.op == O::And && n.w == 1 {
            self.constrain(st, n.a);
            self.constrain(st, n.b);
            return;
        }
        if n.op == O::Not {
            let x = self.cx.n[n.a as usize];
            if x.op == O::Or {
                let a = self.cx.not(x.a);
                let b = self.cx.not(x.b);
                self.constrain(st, a);
                self.constrain(st, b);
                return;
            }
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
        }
    }

    /// Decide a boolean; forks when both sides are feasible. The caller must
    /// not have changed the state since the start of the instruction.
    fn decide(&mut self, st: &mut State, cond: E) -> R<bool> {
        if cond == TRUE {
            return Ok(true);
        }
        if cond == FALSE {
            return Ok(false);
        }
        if let Some(&k) = st.known.get(&cond) {
            return Ok(k == 1);
        }
        let c = self.simp(st, cond, 4);
        if c == TRUE {
            return Ok(true);
        }
        if c == FALSE {
            return Ok(false);
        }
        let v = self.cx.eval(c, &st.model) == 1;
        let nc = self.cx.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            None => {
                self.learn(st, c, v as u128);
                self.learn(st, cond, v as u128);
                Ok(v)
            }
            Some(m) => {
                let mut st2 = st.clone();
                st2.model = m;
                st2.forks += 1;
                self.constrain(&mut st2, other);
                self.learn(&mut st2, c, !v as u128);
                self.learn(&mut st2, cond, !v as u128);
                self.forks += 1;
                if self.o.trace {
                    let fr = st.frames.last().unwrap();
                    let d = demangle(&fr.f.name);
                    *self.fork_sites.entry(d).or_insert(0) += 1;
                }
                self.work.push(st2);
                st.forks += 1;
                self.constrain(st, mine);
                self.learn(st, c, v as u128);
                self.learn(st, cond, v as u128);
                Ok(v)
            }
        }
    }

    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::I(k) => Ok(*k),
            Val::A(_) => Err(Stop::Unsupported("aggregate where a scalar is needed".into())),
            Val::S(e) => {
                if let Some(&k) = st.known.get(e) {
                    return Ok(k);
                }
                let e2 = self.simp(st, *e, 6);
                if let Some(k) = self.cx.is_const(e2) {
                    return Ok(k);
                }
                let w = self.cx.w(e2);
                let mut n = 0;
                loop {
                    let k = self.cx.eval(e2, &st.model);
                    let kc = self.cx.cst(w, k);
                    let c = self.cx.eq(e2, kc);
                    if self.decide(st, c)? {
                        self.learn(st, e2, k);
                        self.learn(st, *e, k);
                        return Ok(k);
                    }
                    n += 1;
                    if n > 4 {
                        return Err(Stop::Unsupported("concretize does not converge".into()));
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- values

    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(k) => self.cx.cst(w, *k),
            Val::S(e) => {
                debug_assert_eq!(self.cx.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn ve(&self, e: E) -> Val {
        match self.cx.is_const(e) {
            Some(k) => Val::I(k),
            None => Val::S(e),
        }
    }
    /// a positive constant factor, when exactly one of the two is constant
    fn small_const(&self, a: &Val, b: &Val, w: u32) -> Option<u128> {
        let k = match (a, b) {
            (Val::I(k), Val::S(_)) | (Val::S(_), Val::I(k)) => *k & msk(w),
            _ => return None,
        };
        if k == 0 || k >> (w - 1) != 0 {
            None
        } else {
            Some(k)
        }
    }
    fn bin1(&mut self, op: O, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            return Val::I(conc(op, w, w, *x, *y, 0, 0, w));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.cx.bin(op, x, y);
        self.ve(r)
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return Val::I(r as u128);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let c = &mut self.cx;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let t = c.eq(x, y);
                c.not(t)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Ule => c.ule(x, y),
            Pred::Uge => c.ule(y, x),
            Pred::Slt => c.bin(O::Slt, x, y),
            Pred::Sgt => c.bin(O::Slt, y, x),
            Pred::Sle => {
                let t = c.bin(O::Slt, y, x);
                c.not(t)
            }
            Pred::Sge => {
                let t = c.bin(O::Slt, x, y);
                c.not(t)
            }
        };
        self.ve(r)
    }
    fn fcmp1(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let c = &mut self.cx;
        let nan = |c: &mut Ctx| {
            let p = c.fun1(O::FIsNan, 1, x);
            let q = c.fun1(O::FIsNan, 1, y);
            c.or(p, q)
        };
        let r = match p {
            "true" => TRUE,
            "false" => FALSE,
            "oeq" => c.bin(O::FEq, x, y),
            "olt" => c.bin(O::FLt, x, y),
            "ole" => c.bin(O::FLe, x, y),
            "ogt" => c.bin(O::FLt, y, x),
            "oge" => c.bin(O::FLe, y, x),
            "une" => {
                let t = c.bin(O::FEq, x, y);
                c.not(t)
            }
            "ult" => {
                let t = c.bin(O::FLe, y, x);
                c.not(t)
            }
            "ule" => {
                let t = c.bin(O::FLt, y, x);
                c.not(t)
            }
            "ugt" => {
                let t = c.bin(O::FLe, x, y);
                c.not(t)
            }
            "uge" => {
                let t = c.bin(O::FLt, x, y);
                c.not(t)
            }
            "uno" => nan(c),
            "ord" => {
                let t = nan(c);
                c.not(t)
            }
            "one" => {
                let l = c.bin(O::FLt, x, y);
                let g = c.bin(O::FLt, y, x);
                c.or(l, g)
            }
            "ueq" => {
                let l = c.bin(O::FLt, x, y);
                let g = c.bin(O::FLt, y, x);
                let o = c.or(l, g);
                c.not(o)
            }
            _ => panic!("fcmp {}", p),
        };
        self.ve(r)
    }
    fn cast1(&mut self, k: Cast, wf: u32, wt: u32, a: &Val) -> Val {
        if let Val::I(x) = a {
            let x = *x;
            return Val::I(match k {
                Cast::Trunc => x & msk(wt),
                Cast::ZExt | Cast::Bitcast => x,
                Cast::SExt => sx(x, wf) as u128 & msk(wt),
                Cast::FpToUi => conc(O::FToU, wt, wf, x, 0, 0, 0, 0),
                Cast::FpToSi => conc(O::FToS, wt, wf, x, 0, 0, 0, 0),
                Cast::UiToFp => conc(O::UToF, wt, wf, x, 0, 0, 0, 0),
                Cast::SiToFp => conc(O::SToF, wt, wf, x, 0, 0, 0, 0),
                Cast::FpExt => conc(O::FExt, wt, wf, x, 0, 0, 0, 0),
                Cast::FpTrunc => conc(O::FTrunc, wt, wf, x, 0, 0, 0, 0),
            });
        }
        let x = self.e(a, wf);
        let c = &mut self.cx;
        let r = match k {
            Cast::Trunc => c.trunc(x, wt),
            Cast::ZExt => c.zext(x, wt),
            Cast::SExt => c.sext(x, wt),
            Cast::Bitcast => x,
            Cast::FpToUi => c.fun1(O::FToU, wt, x),
            Cast::FpToSi => c.fun1(O::FToS, wt, x),
            Cast::UiToFp => c.fun1(O::UToF, wt, x),
            Cast::SiToFp => c.fun1(O::SToF, wt, x),
            Cast::FpExt => c.fun1(O::FExt, wt, x),
            Cast::FpTrunc => c.fun1(O::FTrunc, wt, x),
        };
        self.ve(r)
    }
    fn select1(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(k) => {
                if *k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(ce) => {
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.cx.ite(*ce, x, y);
                self.ve(r)
            }
            Val::A(_) => panic!("select"),
        }
    }
    fn select_any(&mut self, c: &Val, t: &Ty, a: &Val, b: &Val) -> Val {
        if let Val::I(k) = c {
            return if *k & 1 == 1 { a.clone() } else { b.clone() };
        }
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let v = (0..x.len()).map(|i| self.select_any(c, &t.field(i).1, &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            _ => self.select1(c, t.bits(), a, b),
        }
    }

    fn lanes(v: &Val) -> Rc<Vec<Val>> {
        match v {
            Val::A(x) => x.clone(),
            _ => panic!("vector expected"),
        }
    }
    fn map2(&mut self, ty: &Ty, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, u32, &Val, &Val) -> Val) -> Val {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let (x, y) = (Self::lanes(a), Self::lanes(b));
                let v = (0..*n as usize).map(|i| f(self, w, &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            _ => f(self, ty.bits(), a, b),
        }
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &Val) -> Val {
        if from.is_scalar() && to.is_scalar() {
            return a.clone();
        }
        let (ws, vs): (u32, Vec<Val>) = match (from, a) {
            (Ty::Vec(_, t), Val::A(v)) => (t.bits(), v.to_vec()),
            _ => (from.bits(), vec![a.clone()]),
        };
        let (wt, nt) = match to {
            Ty::Vec(n, t) => (t.bits(), *n as usize),
            _ => (to.bits(), 1),
        };
        let mut out = vec![];
        if ws == wt {
            out = vs;
        } else if ws < wt {
            let k = (wt / ws) as usize;
            for i in 0..nt {
                let g = &vs[i * k..(i + 1) * k];
                if g.iter().all(|v| matches!(v, Val::I(_))) {
                    let mut r = 0u128;
                    for (j, v) in g.iter().enumerate() {
                        r |= int(v) << (j as u32 * ws);
                    }
                    out.push(Val::I(r));
                } else {
                    let mut r = self.e(&g[0], ws);
                    for v in &g[1..] {
                        let h = self.e(v, ws);
                        r = self.cx.concat(h, r);
                    }
                    out.push(self.ve(r));
                }
            }
        } else {
            let k = ws / wt;
            for v in &vs {
                for j in 0..k {
                    out.push(match v {
                        Val::I(x) => Val::I((x >> (j * wt)) & msk(wt)),
                        _ => {
                            let e = self.e(v, ws);
                            let r = self.cx.extract(e, j * wt, wt);
                            self.ve(r)
                        }
                    });
                }
            }
        }
        match to {
            Ty::Vec(..) => Val::A(Rc::new(out)),
            _ => out.pop().unwrap(),
        }
    }

    // ---------------------------------------------------------------- memory

    fn global_obj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.gcache.get(&g) {
            return o.clone();
        }
        let (data, ro) = self.m.global_bytes(g);
        let o = Rc::new(Obj { data, sym: None, ro });
        self.gcache.insert(g, o.clone());
        o
    }
    fn obj<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<&'a Rc<Obj>> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        if st.mem.get(id).is_none() {
            let gi = id as u64;
            if gi >= GLOBAL_BASE && gi < GLOBAL_BASE + self.m.globals.len() as u64 {
                let o = self.global_obj(id - GLOBAL_BASE as u32);
                st.mem.insert(id, o);
            } else {
                return Err(Stop::MemErr(format!("access to {:#x} (no such object)", addr)));
            }
        }
        let o = st.mem.get(id).unwrap();
        if off + n > o.data.len() as u64 {
            return Err(Stop::MemErr(format!("access to {:#x}+{} outside object of {} bytes", addr, n, o.data.len())));
        }
        Ok(o)
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<&'a mut Obj> {
        self.obj(st, addr, n)?;
        let o = st.mem.get_mut((addr >> 32) as u32).unwrap();
        if o.ro {
            return Err(Stop::MemErr(format!("write to constant {:#x}", addr)));
        }
        Ok(o)
    }

    fn load_int(&mut self, st: &mut State, addr: u64, w: u32) -> R<Val> {
        let n = (w as u64).div_ceil(8);
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(st, addr, n)?;
        if let Some(s) = &o.sym {
            let r = &s[off..off + n as usize];
            if r.iter().any(|&x| x != 0) {
                let r: Vec<E> = r.to_vec();
                let d: Vec<u8> = o.data[off..off + n as usize].to_vec();
                let mut acc: Option<E> = None;
                // high to low so that adjacent extracts merge
                for i in (0..n as usize).rev() {
                    let b = if r[i] != 0 { r[i] } else { self.cx.cst(8, d[i] as u128) };
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.cx.concat(h, b),
                    });
                }
                let mut e = acc.unwrap();
                if w as u64 != n * 8 {
                    e = self.cx.trunc(e, w);
                }
                return Ok(self.ve(e));
            }
        }
        let o = st.mem.get((addr >> 32) as u32).unwrap();
        let d = &o.data[off..off + n as usize];
        let k = match n {
            8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
            1 => d[0] as u128,
            _ => {
                let mut k = 0u128;
                for (i, b) in d.iter().enumerate() {
                    k |= (*b as u128) << (8 * i);
                }
                k
            }
        };
        Ok(Val::I(k & msk(w)))
    }
    fn load_any(&mut self, st: &mut State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                let w = *n as u32 * et.bits();
                let v = self.load_int(st, addr, w)?;
                Ok(self.bitcast(&Ty::Int(w), t, &v))
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.nfields() {
                    let (o, ft) = t.field(i);
                    v.push(self.load_any(st, addr + o, &ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => self.load_int(st, addr, t.bits()),
        }
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = (w as u64).div_ceil(8);
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::I(k) => {
                let o = self.obj_mut(st, addr, n)?;
                match n {
                    8 => o.data[off..off + 8].copy_from_slice(&(*k as u64).to_le_bytes()),
                    4 => o.data[off..off + 4].copy_from_slice(&(*k as u32).to_le_bytes()),
                    1 => o.data[off] = *k as u8,
                    _ => {
                        for i in 0..n as usize {
                            o.data[off + i] = (k >> (8 * i)) as u8;
                        }
                    }
                }
                o.clear_sym(off, n as usize);
            }
            Val::S(e) => {
                let mut e = *e;
                if w as u64 != n * 8 {
                    e = self.cx.zext(e, n as u32 * 8);
                }
                let mut parts = Vec::with_capacity(n as usize);
                for i in 0..n as u32 {
                    let p = self.cx.extract(e, 8 * i, 8);
                    parts.push((p, self.cx.is_const(p)));
                }
                let o = self.obj_mut(st, addr, n)?;
                for (i, (p, c)) in parts.into_iter().enumerate() {
                    match c {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.clear_sym(off + i, 1);
                        }
                        None => o.put_sym(off + i, p),
                    }
                }
            }
            Val::A(_) => panic!("store"),
        }
        Ok(())
    }
    fn store_any(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Vec(n, et), _) if et.bits() % 8 != 0 => {
                let w = *n as u32 * et.bits();
                let x = self.bitcast(t, &Ty::Int(w), v);
                self.store_int(st, addr, w, &x)
            }
            (_, Val::A(vs)) => {
                // bounds of the whole access first, so that a failing store has no partial effect
                self.obj_mut(st, addr, t.size())?;
                for (i, x) in vs.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    self.store_any(st, addr + o, &ft, x)?;
                }
                Ok(())
            }
            _ => self.store_int(st, addr, t.bits(), v),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = (src & 0xffff_ffff) as usize;
        let dof = (dst & 0xffff_ffff) as usize;
        let o = self.obj(st, src, n)?.clone();
        let n = n as usize;
        let d = self.obj_mut(st, dst, n as u64)?;
        d.data[dof..dof + n].copy_from_slice(&o.data[so..so + n]);
        match &o.sym {
            Some(s) if s[so..so + n].iter().any(|&x| x != 0) => {
                let len = d.data.len();
                let ds = d.sym.get_or_insert_with(|| vec![0; len]);
                ds[dof..dof + n].copy_from_slice(&s[so..so + n]);
            }
            _ => d.clear_sym(dof, n),
        }
        Ok(())
    }
    fn byte(&mut self, st: &mut State, addr: u64) -> R<Val> {
        self.load_int(st, addr, 8)
    }
    pub fn read_str(&mut self, st: &mut State, addr: u64, n: u64) -> String {
        let mut s = String::new();
        for i in 0..n.min(300) {
            match self.byte(st, addr + i) {
                Ok(Val::I(k)) => s.push(k as u8 as char),
                _ => s.push('?'),
            }
        }
        s
    }

    /// load through a symbolic address depending on one byte: an if-then-else
    /// over the values of that byte
    fn sym_load(&mut self, st: &mut State, ae: E, t: &Ty) -> R<Option<Val>> {
        if !t.is_scalar() {
            return Ok(None);
        }
        let Some(var) = self.cx.single_var(ae) else { return Ok(None) };
        let w = t.bits();
        let doms: Vec<E> = st.cons.iter().copied().filter(|&c| self.cx.single_var(c) == Some(var)).collect();
        let mut model = (*st.model).clone();
        model.resize(model.len().max(var + 1), 0);
        let mut groups: Vec<(E, Vec<u8>)> = vec![];
        for x in 0..=255u8 {
            model[var] = x;
            let mut ok = true;
            for &d in &doms {
                if self.cx.eval(d, &model) != 1 {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            let a = self.cx.eval(ae, &model) as u64;
            match self.load_int(st, a, w) {
                Ok(v) => {
                    let e = self.e(&v, w);
                    match groups.iter_mut().find(|g| g.0 == e) {
                        Some(g) => g.1.push(x),
                        None => groups.push((e, vec![x])),
                    }
                }
                Err(_) => return Ok(None), // let the concretising path report it
            }
        }
        if groups.is_empty() {
            return Ok(None);
        }
        if groups.len() > 64 && t == &Ty::Ptr {
            return Ok(None);
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let v = self.cx.var(var);
        let mut r = groups[0].0;
        for (e, xs) in &groups[1..] {
            let mut c = FALSE;
            let mut i = 0;
            while i < xs.len() {
                let mut j = i;
                while j + 1 < xs.len() && xs[j + 1] == xs[j] + 1 {
                    j += 1;
                }
                let lo = self.cx.cst(8, xs[i] as u128);
                let hi = self.cx.cst(8, xs[j] as u128);
                let t = if i == j {
                    self.cx.eq(v, lo)
                } else {
                    let p = self.cx.ule(lo, v);
                    let q = self.cx.ule(v, hi);
                    self.cx.and(p, q)
                };
                c = self.cx.or(c, t);
                i = j + 1;
            }
            r = self.cx.ite(c, *e, r);
        }
        Ok(Some(self.ve(r)))
    }

    // ---------------------------------------------------------------- frames

    fn push_call(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret: Option<u32>) -> R<()> {
        let func: &'static Func = unsafe { &*Rc::as_ptr(&self.m.func(f)) };
        if st.frames.len() > 3000 {
            return Err(Stop::Limit("stack depth".into()));
        }
        *self.funcs_seen.entry(f).or_insert(0) += 1;
        let mut regs = vec![Val::I(0); func.nregs as usize];
        if args.len() != func.params.len() {
            return Err(Stop::Unsupported(format!("arity of {}", func.name)));
        }
        for (p, a) in func.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let stack = if func.frame > 0 { st.mem.alloc(func.frame as usize) } else { 0 };
        st.frames.push(Rc::new(Frame { f: func, bb: 0, ip: 0, regs, stack, extra: vec![], ret }));
        Ok(())
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let b = &fr.f.blocks[to as usize];
        if b.phis.len() == 1 {
            let (d, v) = &b.phis[0];
            let o = &v.iter().find(|x| x.0 == from).expect("phi edge").1;
            let x = match o {
                Op::R(r) => fr.regs[*r as usize].clone(),
                Op::K(v) => v.clone(),
            };
            fr.regs[*d as usize] = x;
        } else if !b.phis.is_empty() {
            let vals: Vec<(u32, Val)> = b
                .phis
                .iter()
                .map(|(d, v)| {
                    let o = &v.iter().find(|x| x.0 == from).expect("phi edge").1;
                    (
                        *d,
                        match o {
                            Op::R(r) => fr.regs[*r as usize].clone(),
                            Op::K(v) => v.clone(),
                        },
                    )
                })
                .collect();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }

    fn step_loop(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    #[inline]
    fn get(st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) {
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
    }
    fn known(&self, st: &State, v: Val) -> Val {
        if let Val::S(e) = &v {
            if let Some(k) = st.known.get(e) {
                return Val::I(*k);
            }
        }
        v
    }
    fn conc_op(&mut self, st: &mut State, o: &Op) -> R<u128> {
        let v = Self::get(st, o);
        if let Val::I(k) = v {
            return Ok(k);
        }
        let k = self.concretize(st, &v)?;
        if let Op::R(r) = o {
            Self::set(st, *r, Val::I(k));
        }
        Ok(k)
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        let ip = fr.ip;
        let ins = &f.blocks[fr.bb as usize].ins[ip as usize];
        st.steps += 1;
        if st.steps & 0xfffff == 0 {
            if self.start.elapsed().as_secs_f64() > self.o.time {
                return Err(Stop::Limit("time limit inside a path".into()));
            }
        }
        if st.steps > self.o.max_steps {
            return Err(Stop::Limit(format!("steps > {}", self.o.max_steps)));
        }
        match ins {
            Ins::Nop => {}
            Ins::Bin { op, ty, a, b, d } => {
                if matches!(op, O::FMul | O::FDiv | O::FRem | O::FAdd | O::FSub) && ty.is_scalar() {
                    // float arithmetic on converted integers (decimal literal
                    // conversion): one path per operand value
                    let one = matches!(Self::get(st, b), Val::I(k) if k as u64 == 1f64.to_bits() && ty.bits() == 64);
                    if *op == O::FRem && one {
                        // x % 1.0 has the sign of x
                        if let Val::S(e) = Self::get(st, a) {
                            let t = self.cx.fun1(O::RTrunc, 64, e);
                            let r = self.cx.bin(O::FSub, e, t);
                            let s = self.cx.extract(e, 63, 1);
                            let m = self.cx.extract(r, 0, 63);
                            let r = self.cx.concat(s, m);
                            let r = self.ve(r);
                            Self::set(st, *d, r);
                            Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                            return Ok(());
                        }
                    }
                    for o in [a, b] {
                        if let Val::S(e) = Self::get(st, o) {
                            if *op == O::FRem || self.cx.from_int(e) {
                                self.conc_op(st, o)?;
                            }
                        }
                    }
                }
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = if let (Val::I(p), Val::I(q)) = (&x, &y) {
                    let w = ty.bits();
                    Val::I(conc(*op, w, w, *p, *q, 0, 0, w))
                } else {
                    self.map2(ty, &x, &y, |s, w, p, q| s.bin1(*op, w, p, q))
                };
                Self::set(st, *d, r);
            }
            Ins::ICmp { p, ty, a, b, d } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = self.map2(ty, &x, &y, |s, w, u, v| s.icmp1(*p, w, u, v));
                Self::set(st, *d, r);
            }
            Ins::FCmp { p, ty, a, b, d } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = self.map2(ty, &x, &y, |s, w, u, v| s.fcmp1(p, w, u, v));
                Self::set(st, *d, r);
            }
            Ins::FNeg { ty, a, d } => {
                let x = Self::get(st, a);
                let w = ty.bits();
                let r = self.bin1(O::Xor, w, &x, &Val::I(1u128 << (w - 1)));
                Self::set(st, *d, r);
            }
            Ins::Cast { c, from, to, a, d } => {
                let x = Self::get(st, a);
                let r = match c {
                    Cast::Bitcast => self.bitcast(from, to, &x),
                    _ => match (from, to) {
                        (Ty::Vec(n, ft), Ty::Vec(_, tt)) => {
                            let l = Self::lanes(&x);
                            let v = (0..*n as usize).map(|i| self.cast1(*c, ft.bits(), tt.bits(), &l[i])).collect();
                            Val::A(Rc::new(v))
                        }
                        _ => self.cast1(*c, from.bits(), to.bits(), &x),
                    },
                };
                Self::set(st, *d, r);
            }
            Ins::Gep { base, off, idx, d } => {
                let mut v = Self::get(st, base);
                if *off != 0 {
                    v = self.bin1(O::Add, 64, &v, &Val::I(*off as u128));
                }
                for (o, w, sc) in idx {
                    let i = Self::get(st, o);
                    let i = self.known(st, i);
                    let i = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &i) } else { i };
                    let t = self.bin1(O::Mul, 64, &i, &Val::I(*sc as u128));
                    v = self.bin1(O::Add, 64, &v, &t);
                }
                Self::set(st, *d, v);
            }
            Ins::Load { ty, p, d } => {
                let a = Self::get(st, p);
                let a = match a {
                    Val::I(k) => k as u64,
                    Val::S(e) => {
                        let e2 = self.simp(st, e, 6);
                        match self.cx.is_const(e2) {
                            Some(k) => k as u64,
                            None => {
                                if let Some(v) = self.sym_load(st, e2, ty)? {
                                    Self::set(st, *d, v);
                                    Self::next(st);
                                    return Ok(());
                                }
                                self.conc_op(st, p)? as u64
                            }
                        }
                    }
                    _ => return Err(Stop::Unsupported("vector load address".into())),
                };
                let v = if ty.is_scalar() { self.load_int(st, a, ty.bits())? } else { self.load_any(st, a, ty)? };
                let v = self.known(st, v);
                Self::set(st, *d, v);
            }
            Ins::Store { ty, v, p } => {
                let a = self.conc_op(st, p)? as u64;
                let x = Self::get(st, v);
                if ty.is_scalar() {
                    self.store_int(st, a, ty.bits(), &x)?;
                } else {
                    self.store_any(st, a, ty, &x)?;
                }
            }
            Ins::Select { ty, cty, c, a, b, d } => {
                let cv = Self::get(st, c);
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = match (cty, &cv) {
                    (Ty::Vec(n, _), Val::A(cs)) => {
                        let et = ty.field(0).1;
                        let (l, m) = (Self::lanes(&x), Self::lanes(&y));
                        let v = (0..*n as usize).map(|i| self.select_any(&cs[i], &et, &l[i], &m[i])).collect();
                        Val::A(Rc::new(v))
                    }
                    _ => {
                        let cv = match cv {
                            Val::S(e) => {
                                let e2 = self.simp(st, e, 3);
                                self.ve(e2)
                            }
                            v => v,
                        };
                        // selecting between two different objects: decide now, a symbolic
                        // pointer would only be split later
                        if let (Ty::Ptr, Val::S(e), Val::I(p), Val::I(q)) = (ty, &cv, &x, &y) {
                            if p != q {
                                let k = self.decide(st, *e)?;
                                if k {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                x
                            }
                        } else {
                            self.select_any(&cv, ty, &x, &y)
                        }
                    }
                };
                Self::set(st, *d, r);
            }
            Ins::Call { .. } => return self.call(st, ins),
            Ins::Asm { d, ret, text, same } => {
                let r = if let Some(o) = same {
                    Self::get(st, o)
                } else if text.contains("cpuid") {
                    self.m.zero(ret)
                } else if text.starts_with("asm sideeffect \"\"") || text.starts_with("asm \"\"") {
                    if *ret != Ty::Void {
                        return Err(Stop::Unsupported("asm with a result".into()));
                    }
                    Val::I(0)
                } else {
                    return Err(Stop::Unsupported(format!("asm {}", &text[..60.min(text.len())])));
                };
                if let Some(d) = d {
                    Self::set(st, *d, r);
                }
            }
            Ins::Alloca { slot, size, n, d } => {
                let a = match slot {
                    Some(o) => ((st.frames.last().unwrap().stack as u64) << 32) + o,
                    None => {
                        let k = self.conc_op(st, n)? as u64;
                        let id = st.mem.alloc((size * k) as usize);
                        Rc::make_mut(st.frames.last_mut().unwrap()).extra.push(id);
                        (id as u64) << 32
                    }
                };
                Self::set(st, *d, Val::I(a as u128));
            }
            Ins::ExtractValue { a, idx, d } => {
                let mut v = Self::get(st, a);
                for i in idx {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                Self::set(st, *d, v);
            }
            Ins::InsertValue { a, b, idx, d, aty } => {
                let v = Self::get(st, a);
                let x = Self::get(st, b);
                let _ = aty;
                fn ins(v: &Val, idx: &[u32], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(r) => {
                            let mut k = (**r).clone();
                            k[idx[0] as usize] = ins(&r[idx[0] as usize], &idx[1..], x);
                            Val::A(Rc::new(k))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&v, idx, x);
                Self::set(st, *d, r);
            }
            Ins::ExtractElement { a, i, d } => {
                let k = self.conc_op(st, i)? as usize;
                let v = Self::lanes(&Self::get(st, a));
                Self::set(st, *d, v[k].clone());
            }
            Ins::InsertElement { a, ty: _, b, i, d } => {
                let k = self.conc_op(st, i)? as usize;
                let mut v = (*Self::lanes(&Self::get(st, a))).clone();
                v[k] = Self::get(st, b);
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::Shuffle { a, b, n, mask, d, .. } => {
                let x = Self::lanes(&Self::get(st, a));
                let y = Self::lanes(&Self::get(st, b));
                let v = mask.iter().map(|&i| if (i as usize) < *n { x[i as usize].clone() } else { y[i as usize - n].clone() }).collect();
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::AtomicRmw { op, ty, p, v, d } => {
                let a = self.conc_op(st, p)? as u64;
                let w = ty.bits();
                let old = self.load_int(st, a, w)?;
                let x = Self::get(st, v);
                let new = match op.as_str() {
                    "add" => self.bin1(O::Add, w, &old, &x),
                    "sub" => self.bin1(O::Sub, w, &old, &x),
                    "and" => self.bin1(O::And, w, &old, &x),
                    "or" => self.bin1(O::Or, w, &old, &x),
                    "xor" => self.bin1(O::Xor, w, &old, &x),
                    "xchg" => x,
                    "umax" | "umin" => {
                        let c = self.icmp1(if op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &old, &x);
                        self.select1(&c, w, &old, &x)
                    }
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store_int(st, a, w, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg { ty, p, c, n, d } => {
                let a = self.conc_op(st, p)? as u64;
                let w = ty.bits();
                let old = self.load_int(st, a, w)?;
                let cv = Self::get(st, c);
                let eq = self.icmp1(Pred::Eq, w, &old, &cv);
                let k = self.concretize(st, &eq)? == 1;
                if k {
                    let x = Self::get(st, n);
                    self.store_int(st, a, w, &x)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::I(k as u128)])));
            }
            Ins::Copy { a, d } => {
                let v = Self::get(st, a);
                Self::set(st, *d, v);
            }
            Ins::Br(b) => return self.jump(st, *b),
            Ins::CondBr(c, a, b) => {
                let v = Self::get(st, c);
                let k = match v {
                    Val::I(k) => k & 1 == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                return self.jump(st, if k { *a } else { *b });
            }
            Ins::Switch { w, v, def, cases } => {
                let x = Self::get(st, v);
                let x = self.known(st, x);
                match x {
                    Val::I(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        return self.jump(st, t);
                    }
                    Val::S(e) => {
                        let e = self.simp(st, e, 4);
                        let mut groups: Vec<(u32, E)> = vec![];
                        for (k, t) in cases {
                            let kc = self.cx.cst(*w, *k);
                            let c = self.cx.eq(e, kc);
                            match groups.iter_mut().find(|g| g.0 == *t) {
                                Some(g) => g.1 = self.cx.or(g.1, c),
                                None => groups.push((*t, c)),
                            }
                        }
                        for (t, c) in groups {
                            if t == *def {
                                continue;
                            }
                            if self.decide(st, c)? {
                                return self.jump(st, t);
                            }
                        }
                        return self.jump(st, *def);
                    }
                    _ => panic!("switch"),
                }
            }
            Ins::Ret(v) => {
                let x = v.as_ref().map(|o| Self::get(st, o));
                let fr = st.frames.pop().unwrap();
                if fr.stack != 0 {
                    st.mem.release(fr.stack);
                }
                for &i in &fr.extra {
                    st.mem.release(i);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(x)) = (fr.ret, x) {
                    Self::set(st, d, x);
                }
                return self.after_call(st);
            }
            Ins::Unreachable => return Err(Stop::MemErr("unreachable instruction executed".into())),
            Ins::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
        }
        Self::next(st);
        Ok(())
    }
    #[inline]
    fn next(st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }
    fn after_call(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let ins = &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize];
        if let Ins::Call { normal: Some(b), .. } = ins {
            return self.jump(st, *b);
        }
        Self::next(st);
        Ok(())
    }

    // ---------------------------------------------------------------- calls

    fn intern(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.bmap.get(n) {
            return i;
        }
        let i = self.builtins.len() as u32;
        self.builtins.push(n.to_string());
        self.bmap.insert(n.to_string(), i);
        i
    }
    fn resolve_code(&mut self, a: u64) -> R<Callee> {
        match self.m.code(a) {
            Some(Sym::Func(f)) => {
                let n = self.m.funcs[f as usize].0;
                if let Some(b) = intercept(n) {
                    return Ok(Callee::Builtin(self.intern(b)));
                }
                Ok(Callee::Fun(f))
            }
            Some(Sym::Decl(d)) => {
                let n = self.m.decls[d as usize];
                Ok(Callee::Builtin(self.intern(n)))
            }
            _ => Err(Stop::MemErr(format!("call of {:#x}", a))),
        }
    }

    fn call(&mut self, st: &mut State, ins: &'static Ins) -> R<()> {
        let Ins::Call { d, ret, f, args, tys, name, cache, .. } = ins else { unreachable!() };
        let callee = if name.is_some() {
            let c = cache.borrow().clone();
            match c {
                Some(c) => c,
                None => {
                    let Op::K(Val::I(a)) = f else { unreachable!() };
                    let c = self.resolve_code(*a as u64)?;
                    *cache.borrow_mut() = Some(c.clone());
                    c
                }
            }
        } else {
            let a = self.conc_op(st, f)?;
            self.resolve_code(a as u64)?
        };
        match callee {
            Callee::Fun(id) => {
                let vals = args.iter().map(|o| Self::get(st, o)).collect();
                self.push_call(st, id, vals, *d)
            }
            Callee::Builtin(b) => {
                let n = self.builtins[b as usize].clone();
                let r = self.builtin(st, &n, args, tys, ret)?;
                if let Some(d) = d {
                    Self::set(st, *d, r);
                }
                self.after_call(st)
            }
        }
    }

    fn newvar(&mut self, st: &mut State) -> E {
        let i = st.nsym;
        st.nsym += 1;
        let e = self.cx.var(i);
        let m = Rc::make_mut(&mut st.model);
        if m.len() <= i {
            m.resize(i + 1, 0);
        }
        if let Some(c) = &self.o.concrete {
            m[i] = c.get(i).copied().unwrap_or(0);
        }
        e
    }

    fn builtin(&mut self, st: &mut State, n: &str, a: &[Op], tys: &[Ty], ret: &Ty) -> R<Val> {
        if let Some(x) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, x, a, tys, ret);
        }
        match n {
            "__sym_bytes" => {
                let p = self.conc_op(st, &a[0])? as u64;
                let k = self.conc_op(st, &a[1])? as u64;
                for i in 0..k {
                    if let Some(c) = self.o.concrete.clone() {
                        let j = st.nsym;
                        self.newvar(st);
                        self.store_int(st, p + i, 8, &Val::I(c.get(j).copied().unwrap_or(0) as u128))?;
                    } else {
                        let e = self.newvar(st);
                        self.store_int(st, p + i, 8, &Val::S(e))?;
                    }
                }
                Ok(iv(0))
            }
            "__sym_param" => {
                let i = self.conc_op(st, &a[0])? as usize;
                Ok(iv(self.o.params.get(i).copied().unwrap_or(0) as u128))
            }
            "__sym_assume" => {
                let v = Self::get(st, &a[0]);
                let w = tys[0].bits();
                let z = self.icmp1(Pred::Ne, w, &v, &Val::I(0));
                match z {
                    Val::I(1) => Ok(iv(0)),
                    Val::I(_) => Err(Stop::Pruned),
                    Val::S(e) => {
                        let e2 = self.simp(st, e, 4);
                        match self.feasible(st, e2)? {
                            None => Err(Stop::Pruned),
                            Some(m) => {
                                st.model = m;
                                self.constrain(st, e2);
                                self.learn(st, e2, 1);
                                Ok(iv(0))
                            }
                        }
                    }
                    _ => panic!(),
                }
            }
            "__sym_assert" => {
                self.asserts += 1;
                let v = Self::get(st, &a[0]);
                let id = self.conc_op(st, &a[1])? as u64;
                let w = tys[0].bits();
                let z = self.icmp1(Pred::Eq, w, &v, &Val::I(0));
                match z {
                    Val::I(0) => Ok(iv(0)),
                    Val::I(_) => Err(Stop::Assert(id)),
                    Val::S(bad) => {
                        let bad = self.simp(st, bad, 4);
                        if let Some(m) = self.feasible(st, bad)? {
                            let mut s2 = st.clone();
                            s2.model = m;
                            self.viol(&s2, "assert", id.to_string());
                            let good = self.cx.not(bad);
                            match self.feasible(st, good)? {
                                None => return Err(Stop::Pruned),
                                Some(m) => {
                                    st.model = m;
                                    self.constrain(st, good);
                                    self.learn(st, good, 1);
                                }
                            }
                        }
                        Ok(iv(0))
                    }
                    _ => panic!(),
                }
            }
            "__sym_finding" => {
                let id = self.conc_op(st, &a[0])? as u64;
                let s2 = st.clone();
                self.viol(&s2, "finding", id.to_string());
                Ok(iv(0))
            }
            "__sym_observe" => {
                let t = self.conc_op(st, &a[0])? as u64;
                let v = Self::get(st, &a[1]);
                st.obs.push((t, v));
                Ok(iv(0))
            }
            "__sym_reach" => {
                let t = self.conc_op(st, &a[0])? as u64;
                *self.reach.entry(t).or_insert(0) += 1;
                Ok(iv(0))
            }
            "__sym_steps" => Ok(iv(st.steps as u128)),
            "__sym_reps" => Ok(iv(1)),
            "__sym_concrete" => {
                let k = self.conc_op(st, &a[0])?;
                Ok(iv(k))
            }
            "malloc" | "calloc" => {
                let k = self.conc_op(st, &a[0])? as u64;
                let k = if n == "calloc" { k * self.conc_op(st, &a[1])? as u64 } else { k };
                if k > 1 << 28 {
                    return Err(Stop::Limit(format!("allocation of {} bytes", k)));
                }
                let id = st.mem.alloc(k as usize);
                Ok(iv((id as u128) << 32))
            }
            "posix_memalign" => {
                let p = self.conc_op(st, &a[0])? as u64;
                let k = self.conc_op(st, &a[2])? as u64;
                let id = st.mem.alloc(k as usize);
                self.store_int(st, p, 64, &iv((id as u128) << 32))?;
                Ok(iv(0))
            }
            "realloc" => {
                let p = self.conc_op(st, &a[0])? as u64;
                let k = self.conc_op(st, &a[1])? as u64;
                if k > 1 << 28 {
                    return Err(Stop::Limit(format!("allocation of {} bytes", k)));
                }
                let old = self.obj(st, p, 0)?.data.len() as u64;
                let id = st.mem.alloc(k as usize);
                self.copy(st, (id as u64) << 32, p, old.min(k))?;
                st.mem.release((p >> 32) as u32);
                Ok(iv((id as u128) << 32))
            }
            "free" => {
                let p = self.conc_op(st, &a[0])? as u64;
                if p != 0 && (p & 0xffff_ffff != 0 || !st.mem.release((p >> 32) as u32)) {
                    return Err(Stop::MemErr(format!("free of {:#x}", p)));
                }
                Ok(iv(0))
            }
            "memcmp" | "bcmp" => {
                let p = self.conc_op(st, &a[0])? as u64;
                let q = self.conc_op(st, &a[1])? as u64;
                let k = self.conc_op(st, &a[2])? as u64;
                let mut r = iv(0);
                if n == "bcmp" {
                    let mut all = TRUE;
                    for i in 0..k {
                        let x = self.byte(st, p + i)?;
                        let y = self.byte(st, q + i)?;
                        let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                        let c = self.cx.eq(x, y);
                        all = self.cx.and(all, c);
                        if all == FALSE {
                            break;
                        }
                    }
                    let ne = self.cx.not(all);
                    let z = self.cx.zext(ne, 32);
                    return Ok(self.ve(z));
                }
                // first difference decides; find a leading concrete difference early
                let mut items = vec![];
                for i in 0..k {
                    let x = self.byte(st, p + i)?;
                    let y = self.byte(st, q + i)?;
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    let c = self.cx.eq(x, y);
                    if c == TRUE {
                        continue;
                    }
                    items.push((x, y, c));
                    if c == FALSE {
                        break;
                    }
                }
                for (x, y, c) in items.into_iter().rev() {
                    let lt = self.cx.ult(x, y);
                    let m1 = self.cx.cst(32, !0);
                    let p1 = self.cx.cst(32, 1);
                    let d = self.cx.ite(lt, m1, p1);
                    let rr = self.e(&r, 32);
                    let z = self.cx.ite(c, rr, d);
                    r = self.ve(z);
                }
                Ok(r)
            }
            "strlen" => {
                let p = self.conc_op(st, &a[0])? as u64;
                let mut k = 0;
                loop {
                    let v = self.byte(st, p + k)?;
                    if self.concretize(st, &v)? == 0 {
                        return Ok(iv(k as u128));
                    }
                    k += 1;
                }
            }
            "abort" | "exit" | "_exit" => Err(Stop::Panic("abort".into())),
            "#panic" => {
                // panic_fmt(template, args, &Location): last argument is the location
                let mut msg = String::from("panic");
                if let Some(Val::I(l)) = a.last().map(|o| Self::get(st, o)) {
                    let l = l as u64;
                    if let (Ok(Val::I(p)), Ok(Val::I(n)), Ok(Val::I(line))) = (self.load_int(st, l, 64), self.load_int(st, l + 8, 64), self.load_int(st, l + 16, 32)) {
                        if n < 300 {
                            let s = self.read_str(st, p as u64, n as u64);
                            msg = format!("panic at {}:{}", s, line);
                        }
                    }
                }
                Err(Stop::Panic(msg))
            }
            "#hash" => Ok(iv(0)),
            "#keys" => Ok(Val::A(Rc::new(vec![iv(0), iv(0)]))),
            "#one" => Ok(iv(1)),
            "getrandom" => {
                let k = self.conc_op(st, &a[1])?;
                Ok(iv(k))
            }
            "syscall" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_key_delete" | "sched_yield" | "sigaction" => Ok(iv(0)),
            "gettid" | "pthread_self" | "getpid" => Ok(iv(1)),
            "getenv" => Ok(iv(0)),
            "open64" | "open" | "readlink" | "sched_getaffinity" | "stat64" | "statx" | "fstat64" => {
                let id = self.errno;
                self.store_int(st, (id as u64) << 32, 32, &iv(2))?;
                Ok(iv(msk(ret.bits())))
            }
            "__errno_location" => Ok(iv((self.errno as u128) << 32)),
            "pthread_key_create" => {
                let p = self.conc_op(st, &a[0])? as u64;
                let k = st.steps as u128 & 0xfff_ffff | 1;
                self.store_int(st, p, 32, &iv(k))?;
                Ok(iv(0))
            }
            "clock_gettime" | "gettimeofday" => {
                // a clock that stands still
                let p = self.conc_op(st, &a[if n == "clock_gettime" { 1 } else { 0 }])? as u64;
                self.store_int(st, p, 64, &iv(1))?;
                self.store_int(st, p + 8, 64, &iv(0))?;
                Ok(iv(0))
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" => {
                let v = Self::get(st, &a[0]);
                self.intr1(&[n], &[v], 64, 64)
            }
            "sysconf" => Ok(iv(1)),
            "write" => {
                let k = self.conc_op(st, &a[2])?;
                Ok(iv(k))
            }
            _ => Err(Stop::Unsupported(format!("external function {}", n))),
        }
    }

    fn ctlz(&mut self, e: E, w: u32) -> E {
        // number of leading zeros as an ite chain from the lowest bit up
        let mut r = self.cx.cst(w, w as u128);
        for i in 0..w {
            let b = self.cx.extract(e, i, 1);
            let k = self.cx.cst(w, (w - 1 - i) as u128);
            r = self.cx.ite(b, k, r);
        }
        r
    }
    fn cttz(&mut self, e: E, w: u32) -> E {
        let mut r = self.cx.cst(w, w as u128);
        for i in (0..w).rev() {
            let b = self.cx.extract(e, i, 1);
            let k = self.cx.cst(w, i as u128);
            r = self.cx.ite(b, k, r);
        }
        r
    }

    fn intrinsic(&mut self, st: &mut State, x: &str, a: &[Op], tys: &[Ty], ret: &Ty) -> R<Val> {
        let base = x.split('.').next().unwrap();
        // elementwise over vectors for the simple integer ones
        match base {
            "memcpy" | "memmove" => {
                let n = self.conc_op(st, &a[2])? as u64;
                if n > 0 {
                    let d = self.conc_op(st, &a[0])? as u64;
                    let s = self.conc_op(st, &a[1])? as u64;
                    self.copy(st, d, s, n)?;
                }
                return Ok(iv(0));
            }
            "memset" => {
                let n = self.conc_op(st, &a[2])? as u64;
                if n > 0 {
                    let d = self.conc_op(st, &a[0])? as u64;
                    let v = Self::get(st, &a[1]);
                    match v {
                        Val::I(k) => {
                            let o = self.obj_mut(st, d, n)?;
                            let off = (d & 0xffff_ffff) as usize;
                            for b in &mut o.data[off..off + n as usize] {
                                *b = k as u8;
                            }
                            o.clear_sym(off, n as usize);
                        }
                        v => {
                            for i in 0..n {
                                self.store_int(st, d + i, 8, &v)?;
                            }
                        }
                    }
                }
                return Ok(iv(0));
            }
            "trap" | "debugtrap" => return Err(Stop::Panic("trap".into())),
            "threadlocal" => return Ok(Self::get(st, &a[0])),
            "is" if !x.starts_with("is.fpclass") => return Ok(iv(0)), // is.constant
            "expect" => return Ok(Self::get(st, &a[0])),
            "x86" => {
                if x.contains("pause") {
                    return Ok(iv(0));
                }
                return Err(Stop::Unsupported(format!("llvm.{}", x)));
            }
            "ptrmask" => {
                let (p, q) = (Self::get(st, &a[0]), Self::get(st, &a[1]));
                return Ok(self.bin1(O::And, 64, &p, &q));
            }
            _ => {}
        }
        let vals: Vec<Val> = a.iter().map(|o| Self::get(st, o)).collect();
        let parts: Vec<&str> = x.split('.').collect();
        if let Some(Ty::Vec(n, et)) = tys.first() {
            if base == "vector" {
                // vector.reduce.*
                let l = Self::lanes(&vals[0]);
                let w = et.bits();
                let mut r = l[0].clone();
                for v in &l[1..] {
                    r = match parts[2] {
                        "or" => self.bin1(O::Or, w, &r, v),
                        "and" => self.bin1(O::And, w, &r, v),
                        "add" => self.bin1(O::Add, w, &r, v),
                        "xor" => self.bin1(O::Xor, w, &r, v),
                        "umax" => {
                            let c = self.icmp1(Pred::Ugt, w, &r, v);
                            self.select1(&c, w, &r, v)
                        }
                        "umin" => {
                            let c = self.icmp1(Pred::Ult, w, &r, v);
                            self.select1(&c, w, &r, v)
                        }
                        _ => return Err(Stop::Unsupported(format!("llvm.{}", x))),
                    };
                }
                return Ok(r);
            }
            let rw = match ret {
                Ty::Vec(_, t) => t.bits(),
                _ => return Err(Stop::Unsupported(format!("llvm.{}", x))),
            };
            let mut out = vec![];
            for i in 0..*n as usize {
                let vs: Vec<Val> = vals
                    .iter()
                    .map(|v| match v {
                        Val::A(l) => l[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(self.intr1(&parts, &vs, et.bits(), rw)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        if tys.is_empty() {
            return Err(Stop::Unsupported(format!("llvm.{}", x)));
        }
        let rw = match ret {
            Ty::Struct(..) => 0,
            t => t.bits(),
        };
        self.intr1(&parts, &vals, tys[0].bits(), rw)
    }

    fn intr1(&mut self, p: &[&str], v: &[Val], w: u32, rw: u32) -> R<Val> {
        let allc = v.iter().all(|x| matches!(x, Val::I(_)));
        let un = || Stop::Unsupported(format!("llvm.{}", p.join(".")));
        Ok(match p[0] {
            "umax" | "umin" | "smax" | "smin" => {
                let pr = match p[0] {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp1(pr, w, &v[0], &v[1]);
                self.select1(&c, w, &v[0], &v[1])
            }
            "ucmp" | "scmp" => {
                let (l, g) = if p[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp1(l, w, &v[0], &v[1]);
                let gt = self.icmp1(g, w, &v[0], &v[1]);
                let t = self.select1(&gt, rw, &iv(1), &iv(0));
                self.select1(&lt, rw, &iv(msk(rw)), &t)
            }
            "abs" => {
                let c = self.icmp1(Pred::Slt, w, &v[0], &iv(0));
                let n = self.bin1(O::Sub, w, &iv(0), &v[0]);
                self.select1(&c, w, &n, &v[0])
            }
            "fabs" => self.bin1(O::And, w, &v[0], &iv(msk(w - 1))),
            "copysign" => {
                let x = self.bin1(O::And, w, &v[0], &iv(msk(w - 1)));
                let y = self.bin1(O::And, w, &v[1], &iv(1u128 << (w - 1)));
                self.bin1(O::Or, w, &x, &y)
            }
            "ctlz" | "cttz" => {
                if let Val::I(k) = v[0] {
                    let r = if p[0] == "ctlz" {
                        (k << (128 - w)).leading_zeros().min(w)
                    } else {
                        k.trailing_zeros().min(w)
                    };
                    return Ok(iv(r as u128));
                }
                let e = self.e(&v[0], w);
                let r = if p[0] == "ctlz" { self.ctlz(e, w) } else { self.cttz(e, w) };
                self.ve(r)
            }
            "ctpop" => {
                if let Val::I(k) = v[0] {
                    return Ok(iv(k.count_ones() as u128));
                }
                let e = self.e(&v[0], w);
                let mut r = self.cx.cst(w, 0);
                for i in 0..w {
                    let b = self.cx.extract(e, i, 1);
                    let z = self.cx.zext(b, w);
                    r = self.cx.bin(O::Add, r, z);
                }
                self.ve(r)
            }
            "bswap" => {
                if let Val::I(k) = v[0] {
                    return Ok(iv(k.swap_bytes() >> (128 - w)));
                }
                let e = self.e(&v[0], w);
                let mut r = self.cx.extract(e, 0, 8);
                for i in 1..w / 8 {
                    let b = self.cx.extract(e, 8 * i, 8);
                    r = self.cx.concat(r, b);
                }
                self.ve(r)
            }
            "bitreverse" => {
                if let Val::I(k) = v[0] {
                    return Ok(iv(k.reverse_bits() >> (128 - w)));
                }
                let e = self.e(&v[0], w);
                let mut r = self.cx.extract(e, 0, 1);
                for i in 1..w {
                    let b = self.cx.extract(e, i, 1);
                    r = self.cx.concat(r, b);
                }
                self.ve(r)
            }
            "fshl" | "fshr" => {
                let s = match &v[2] {
                    Val::I(k) => (*k % w as u128) as u32,
                    Val::S(k) if 2 * w <= 128 && w.is_power_of_two() => {
                        // the two words side by side, shifted
                        let m = self.cx.cst(w, w as u128 - 1);
                        let k = self.cx.bin(O::And, *k, m);
                        let k = self.cx.zext(k, 2 * w);
                        let (x, y) = (self.e(&v[0], w), self.e(&v[1], w));
                        let c = self.cx.concat(x, y);
                        let r = if p[0] == "fshl" {
                            let r = self.cx.bin(O::Shl, c, k);
                            self.cx.extract(r, w, w)
                        } else {
                            let r = self.cx.bin(O::LShr, c, k);
                            self.cx.extract(r, 0, w)
                        };
                        return Ok(self.ve(r));
                    }
                    _ => return Err(un()),
                };
                if allc {
                    let (x, y) = (int(&v[0]), int(&v[1]));
                    let r = if p[0] == "fshl" {
                        if s == 0 {
                            x
                        } else {
                            (x << s) | (y >> (w - s))
                        }
                    } else if s == 0 {
                        y
                    } else {
                        (x << (w - s)) | (y >> s)
                    };
                    return Ok(iv(r & msk(w)));
                }
                let x = self.e(&v[0], w);
                let y = self.e(&v[1], w);
                if s == 0 {
                    return Ok(self.ve(if p[0] == "fshl" { x } else { y }));
                }
                let k = if p[0] == "fshl" { s } else { w - s };
                let h = self.cx.extract(x, 0, w - k);
                let l = self.cx.extract(y, w - k, k);
                let r = self.cx.concat(h, l);
                self.ve(r)
            }
            "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
                let signed = p[0].starts_with('s');
                let op = match &p[0][1..] {
                    "add" => O::Add,
                    "sub" => O::Sub,
                    _ => O::Mul,
                };
                let r = self.bin1(op, w, &v[0], &v[1]);
                // overflow flag computed in 2w (or w+1) bits
                let ov = if allc {
                    let (x, y) = (int(&v[0]), int(&v[1]));
                    let o = if signed {
                        let (x, y) = (sx(x, w), sx(y, w));
                        let t = match op {
                            O::Add => x.checked_add(y),
                            O::Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        match t {
                            None => true,
                            Some(t) => sx(t as u128 & msk(w), w) != t,
                        }
                    } else {
                        match op {
                            O::Add => match x.checked_add(y) {
                                None => true,
                                Some(t) => t > msk(w),
                            },
                            O::Sub => x < y,
                            _ => match x.checked_mul(y) {
                                None => true,
                                Some(t) => t > msk(w),
                            },
                        }
                    };
                    iv(o as u128)
                } else if !signed && op == O::Sub {
                    self.icmp1(Pred::Ult, w, &v[0], &v[1])
                } else if !signed && op == O::Add {
                    self.icmp1(Pred::Ult, w, &r, &v[0])
                } else if let (O::Mul, Some(c), false) = (op, self.small_const(&v[0], &v[1], w), w > 64) {
                    // by a positive constant: a range check on the other factor
                    let x = if matches!(v[0], Val::S(_)) { v[0].clone() } else { v[1].clone() };
                    if signed {
                        let hi = msk(w - 1) / c;
                        let lo = (1u128 << (w - 1)) / c;
                        let a = self.icmp1(Pred::Slt, w, &iv(hi), &x);
                        let b = self.icmp1(Pred::Slt, w, &x, &iv(lo.wrapping_neg() & msk(w)));
                        self.bin1(O::Or, 1, &a, &b)
                    } else {
                        self.icmp1(Pred::Ult, w, &iv(msk(w) / c), &x)
                    }
                } else {
                    let ww = if op == O::Mul { 2 * w } else { w + 1 };
                    if ww > 128 {
                        return Err(un());
                    }
                    let k = if signed { Cast::SExt } else { Cast::ZExt };
                    let x = self.cast1(k, w, ww, &v[0]);
                    let y = self.cast1(k, w, ww, &v[1]);
                    let full = self.bin1(op, ww, &x, &y);
                    let back = self.cast1(k, w, ww, &r);
                    self.icmp1(Pred::Ne, ww, &full, &back)
                };
                if p[1] == "sat" {
                    if signed {
                        // saturate by the sign of the exact result
                        let neg = match op {
                            O::Add => self.icmp1(Pred::Slt, w, &v[0], &iv(0)),
                            O::Sub => self.icmp1(Pred::Slt, w, &v[0], &iv(0)),
                            _ => return Err(un()),
                        };
                        let s = self.select1(&neg, w, &iv(1u128 << (w - 1)), &iv(msk(w - 1)));
                        self.select1(&ov, w, &s, &r)
                    } else {
                        let s = if op == O::Sub { iv(0) } else { iv(msk(w)) };
                        self.select1(&ov, w, &s, &r)
                    }
                } else {
                    Val::A(Rc::new(vec![r, ov]))
                }
            }
            "fptoui" | "fptosi" => {
                // .sat
                let signed = p[0] == "fptosi";
                if let Val::I(k) = v[0] {
                    let f = if w == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
                    let r = if f.is_nan() {
                        0u128
                    } else if signed {
                        let lo = -((1i128) << (rw - 1));
                        let hi = (1i128 << (rw - 1)) - 1;
                        ((f as i128).clamp(lo, hi)) as u128 & msk(rw)
                    } else {
                        (f as u128).min(msk(rw))
                    };
                    return Ok(iv(r));
                }
                // the bounds are powers of two, so exact
                let fb = |x: f64| -> u128 {
                    if w == 64 {
                        x.to_bits() as u128
                    } else {
                        (x as f32).to_bits() as u128
                    }
                };
                let (lo, hi) = if signed { (-(2f64.powi(rw as i32 - 1)), 2f64.powi(rw as i32 - 1)) } else { (0.0, 2f64.powi(rw as i32)) };
                let x = self.e(&v[0], w);
                let cx = &mut self.cx;
                let nan = cx.fun1(O::FIsNan, 1, x);
                let l = cx.cst(w, fb(lo));
                let h = cx.cst(w, fb(hi));
                let below = cx.bin(O::FLt, x, l);
                let above = cx.bin(O::FLe, h, x);
                let zero = cx.cst(rw, 0);
                let (ml, mh) = if signed { (1u128 << (rw - 1), msk(rw - 1)) } else { (0, msk(rw)) };
                let (ml, mh) = (cx.cst(rw, ml), cx.cst(rw, mh));
                let r = cx.fun1(if signed { O::FToS } else { O::FToU }, rw, x);
                let r = cx.ite(above, mh, r);
                let r = cx.ite(below, ml, r);
                let r = cx.ite(nan, zero, r);
                self.ve(r)
            }
            "trunc" | "floor" | "ceil" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" => {
                let op = match p[0] {
                    "trunc" => O::RTrunc,
                    "floor" => O::RFloor,
                    "ceil" => O::RCeil,
                    "round" => O::RRound,
                    "sqrt" => O::FSqrt,
                    _ => O::REven,
                };
                let x = self.e(&v[0], w);
                let r = self.cx.fun1(op, w, x);
                self.ve(r)
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let (x, y) = (self.e(&v[0], w), self.e(&v[1], w));
                let cx = &mut self.cx;
                let (nx, ny) = (cx.fun1(O::FIsNan, 1, x), cx.fun1(O::FIsNan, 1, y));
                let lt = cx.bin(O::FLt, x, y);
                let r = if p[0].starts_with("min") { cx.ite(lt, x, y) } else { cx.ite(lt, y, x) };
                let r = cx.ite(ny, x, r);
                let r = cx.ite(nx, y, r);
                self.ve(r)
            }
            // is.fpclass: tested on the bits
            "is" => {
                let mask = int(&v[1]) as u32;
                let x = self.e(&v[0], w);
                let mb = if w == 64 { 52 } else { 23 };
                let cx = &mut self.cx;
                let neg = cx.extract(x, w - 1, 1);
                let exp = cx.extract(x, mb, w - 1 - mb);
                let man = cx.extract(x, 0, mb);
                let quiet = cx.extract(x, mb - 1, 1);
                let (e0, e1, m0) = (cx.cst(w - 1 - mb, 0), cx.cst(w - 1 - mb, msk(w - 1 - mb)), cx.cst(mb, 0));
                let (ez, em, mz) = (cx.eq(exp, e0), cx.eq(exp, e1), cx.eq(man, m0));
                let (nz, nm, nmz, nq, pos) = (cx.not(ez), cx.not(em), cx.not(mz), cx.not(quiet), cx.not(neg));
                let nan = cx.and(em, nmz);
                let inf = cx.and(em, mz);
                let norm = cx.and(nz, nm);
                let sub = cx.and(ez, nmz);
                let zero = cx.and(ez, mz);
                let mut r = FALSE;
                for (i, (c, s)) in [(nan, nq), (nan, quiet), (inf, neg), (norm, neg), (sub, neg), (zero, neg), (zero, pos), (sub, pos), (norm, pos), (inf, pos)].into_iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        let t = cx.and(c, s);
                        r = cx.or(r, t);
                    }
                }
                self.ve(r)
            }
            _ => return Err(un()),
        })
    }
}

/// functions with a body in the module that are replaced by a stub
fn intercept(n: &str) -> Option<&'static str> {
    if n.contains("core9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.ends_with("rust_begin_unwind") || n.contains("___rustc10rust_panic") || n.contains("9panicking11begin_panic") || n.contains("handle_alloc_error") || n.contains("9panicking14panic_nounwind") {
        return Some("#panic");
    }
    if n.contains("BuildHasher8hash_one") {
        return Some("#hash");
    }
    if n.contains("hashmap_random_keys") {
        return Some("#keys");
    }
    None
}

/// rough demangling of v0 names: identifiers joined by "::"
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator / back reference: skip base-62 up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
            i += 1;
        } else if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if i + k <= b.len() && k > 0 {
                out.push(&n[i..i + k]);
                i += k;
            }
        } else {
            i += 1;
        }
        if out.len() > 9 {
            break;
        }
    }
    out.join("::")
}
