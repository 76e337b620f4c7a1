//! Reference reading of RFC 9535, written from the RFC and sharing no code
//! with the crates under test: a recursive-descent parser with the static
//! typing rules of section 2.4, and an evaluator producing nodes with paths.
use serde_json::Value;

#[derive(Clone, Debug)]
pub struct Query {
    pub root: bool,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
    /// written without brackets
    pub short: bool,
}
#[derive(Clone, Debug)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Expr),
}
#[derive(Clone, Debug)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Paren(Box<Expr>),
    Cmp(Prim, Op, Prim),
    Exist(Query),
    Func(Call),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
#[derive(Clone, Debug)]
pub enum Prim {
    Lit(Value),
    Query(Query),
    Func(Call),
}
#[derive(Clone, Debug)]
pub struct Call {
    pub f: &'static FnDef,
    pub args: Vec<Arg>,
}
#[derive(Clone, Debug)]
pub enum Arg {
    Prim(Prim),
    Logical(Expr),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    V,
    N,
    L,
}
pub struct FnDef {
    pub name: &'static str,
    pub args: &'static [Ty],
    pub ret: Ty,
    pub eval: fn(Vec<Data>) -> Data<'static>,
    /// functions whose result borrows from the arguments
    pub pass: u8,
}
impl std::fmt::Debug for FnDef {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}
/// Values of the type system: ValueType (a value or Nothing), NodesType, LogicalType.
#[derive(Clone, Debug)]
pub enum Data<'a> {
    Owned(Value),
    Ref(&'a Value),
    Nothing,
    Nodes(Vec<&'a Value>),
    Logical(bool),
}
impl<'a> Data<'a> {
    pub fn val(&self) -> Option<&Value> {
        match self {
            Data::Owned(v) => Some(v),
            Data::Ref(v) => Some(v),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// not a well-formed and valid query
    Invalid,
    /// valid text whose meaning the property leaves open (a number literal
    /// that no finite double represents)
    Open,
}
type R<T> = Result<T, Bad>;

fn num(n: usize) -> Data<'static> {
    Data::Owned(Value::from(n))
}
fn f_length(a: Vec<Data>) -> Data<'static> {
    match a[0].val() {
        Some(Value::String(s)) => {
            // Unicode scalar values: every byte but the continuation bytes
            let mut n = 0;
            for b in s.bytes() {
                if b & 0xc0 != 0x80 {
                    n += 1;
                }
            }
            num(n)
        }
        Some(Value::Array(v)) => num(v.len()),
        Some(Value::Object(m)) => num(m.len()),
        _ => Data::Nothing,
    }
}
fn f_count(a: Vec<Data>) -> Data<'static> {
    match &a[0] {
        Data::Nodes(n) => num(n.len()),
        _ => panic!(),
    }
}
fn f_match(a: Vec<Data>) -> Data<'static> {
    Data::Logical(match (a[0].val(), a[1].val()) {
        (Some(Value::String(s)), Some(Value::String(r))) => crate::rx::is_match(r, s, true),
        _ => false,
    })
}
fn f_search(a: Vec<Data>) -> Data<'static> {
    Data::Logical(match (a[0].val(), a[1].val()) {
        (Some(Value::String(s)), Some(Value::String(r))) => crate::rx::is_match(r, s, false),
        _ => false,
    })
}
fn f_none(_: Vec<Data>) -> Data<'static> {
    Data::Nothing
}
pub static STD: &[FnDef] = &[
    FnDef { name: "length", args: &[Ty::V], ret: Ty::V, eval: f_length, pass: 0 },
    FnDef { name: "count", args: &[Ty::N], ret: Ty::V, eval: f_count, pass: 0 },
    FnDef { name: "value", args: &[Ty::N], ret: Ty::V, eval: f_none, pass: 1 },
    #[cfg(feature = "regex")]
    FnDef { name: "match", args: &[Ty::V, Ty::V], ret: Ty::L, eval: f_match, pass: 0 },
    #[cfg(feature = "regex")]
    FnDef { name: "search", args: &[Ty::V, Ty::V], ret: Ty::L, eval: f_search, pass: 0 },
];

pub struct P<'t> {
    s: &'t [u8],
    i: usize,
    extra: &'static [FnDef],
}

pub const MAXI: i64 = 9007199254740991;

pub fn parse(s: &str) -> R<Query> {
    // the functions this program registers are known everywhere
    parse_with(s, if cfg!(feature = "functions") { crate::api::CUSTOM } else { &[] })
}
pub fn parse_with(s: &str, extra: &'static [FnDef]) -> R<Query> {
    let mut p = P { s: s.as_bytes(), i: 0, extra };
    p.want(b'$')?;
    let segs = p.segments()?;
    if p.i != p.s.len() {
        return Err(Bad::Invalid);
    }
    Ok(Query { root: true, segs })
}

impl<'t> P<'t> {
    fn at(&self, k: usize) -> u8 {
        // 0 never begins anything in the grammar, so it doubles as "end"
        if self.i + k < self.s.len() {
            self.s[self.i + k]
        } else {
            0
        }
    }
    fn want(&mut self, b: u8) -> R<()> {
        if self.i < self.s.len() && self.s[self.i] == b {
            self.i += 1;
            Ok(())
        } else {
            Err(Bad::Invalid)
        }
    }
    fn ws(&mut self) {
        loop {
            let c = self.at(0);
            if (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r') {
                self.i += 1;
            } else {
                return;
            }
        }
    }

    fn segments(&mut self) -> R<Vec<Seg>> {
        let mut v = vec![];
        loop {
            let save = self.i;
            self.ws();
            let c = self.at(0);
            if c == b'[' {
                self.i += 1;
                v.push(Seg { desc: false, sels: self.bracketed()?, short: false });
            } else if c == b'.' {
                self.i += 1;
                let desc = self.at(0) == b'.';
                if desc {
                    self.i += 1;
                }
                let c = self.at(0);
                let short = c != b'[';
                let sels = if c == b'*' {
                    self.i += 1;
                    vec![Sel::Wild]
                } else if desc && c == b'[' {
                    self.i += 1;
                    self.bracketed()?
                } else {
                    vec![Sel::Name(self.shorthand()?)]
                };
                v.push(Seg { desc, sels, short });
            } else {
                self.i = save;
                return Ok(v);
            }
        }
    }

    fn shorthand(&mut self) -> R<String> {
        let b = self.i;
        loop {
            let c = self.at(0);
            let first = among3(c);
            let digit = (c >= b'0') & (c <= b'9');
            if first | (digit & (self.i > b)) {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.i == b {
            return Err(Bad::Invalid);
        }
        Ok(own(&self.s[b..self.i]))
    }

    fn bracketed(&mut self) -> R<Vec<Sel>> {
        let mut v = vec![];
        loop {
            self.ws();
            v.push(self.selector()?);
            self.ws();
            match self.at(0) {
                b',' => self.i += 1,
                b']' => {
                    self.i += 1;
                    return Ok(v);
                }
                _ => return Err(Bad::Invalid),
            }
        }
    }

    fn selector(&mut self) -> R<Sel> {
        let c = self.at(0);
        if c == b'*' {
            self.i += 1;
            return Ok(Sel::Wild);
        }
        if c == b'?' {
            self.i += 1;
            self.ws();
            return Ok(Sel::Filter(self.or()?));
        }
        if (c == b'\'') | (c == b'"') {
            return Ok(Sel::Name(self.string()?));
        }
        let start = if c == b':' { None } else { Some(self.int()?) };
        let save = self.i;
        self.ws();
        if self.at(0) != b':' {
            self.i = save;
            return match start {
                Some(i) => Ok(Sel::Index(i)),
                None => Err(Bad::Invalid),
            };
        }
        self.i += 1;
        self.ws();
        let mut end = None;
        let mut step = None;
        let c = self.at(0);
        if (c == b'-') | ((c >= b'0') & (c <= b'9')) {
            end = Some(self.int()?);
            self.ws();
        }
        if self.at(0) == b':' {
            self.i += 1;
            self.ws();
            let c = self.at(0);
            if (c == b'-') | ((c >= b'0') & (c <= b'9')) {
                step = Some(self.int()?);
            }
        }
        Ok(Sel::Slice(start, end, step))
    }

    /// int = "0" / ["-"] DIGIT1 *DIGIT, within the I-JSON range
    fn int(&mut self) -> R<i64> {
        let neg = self.at(0) == b'-';
        if neg {
            self.i += 1;
        }
        let c = self.at(0);
        if c == b'0' {
            if neg {
                return Err(Bad::Invalid);
            }
            self.i += 1;
            return Ok(0);
        }
        if !((c >= b'1') & (c <= b'9')) {
            return Err(Bad::Invalid);
        }
        let mut n: i64 = 0;
        let mut over = false;
        loop {
            let c = self.at(0);
            if !((c >= b'0') & (c <= b'9')) {
                break;
            }
            self.i += 1;
            if over {
                continue;
            }
            n = n * 10 + (c - b'0') as i64;
            if n > MAXI {
                over = true;
            }
        }
        if over {
            return Err(Bad::Invalid);
        }
        Ok(if neg { -n } else { n })
    }

    fn hex4(&mut self) -> R<u32> {
        let mut n = 0u32;
        for _ in 0..4 {
            let c = self.at(0);
            let d = if (c >= b'0') & (c <= b'9') {
                c - b'0'
            } else if (c >= b'a') & (c <= b'f') {
                c - b'a' + 10
            } else if (c >= b'A') & (c <= b'F') {
                c - b'A' + 10
            } else {
                return Err(Bad::Invalid);
            };
            self.i += 1;
            n = n << 4 | d as u32;
        }
        Ok(n)
    }

    fn string(&mut self) -> R<String> {
        let q = self.at(0);
        self.i += 1;
        let mut v: Vec<u8> = vec![];
        loop {
            if self.i >= self.s.len() {
                return Err(Bad::Invalid);
            }
            let c = self.s[self.i];
            self.i += 1;
            if c == q {
                return Ok(own(&v));
            }
            if c < 0x20 {
                return Err(Bad::Invalid);
            }
            if c != b'\\' {
                v.push(c);
                continue;
            }
            let e = self.at(0);
            self.i += 1;
            if e == q {
                v.push(q);
                continue;
            }
            match e {
                b'b' => v.push(8),
                b't' => v.push(9),
                b'n' => v.push(10),
                b'f' => v.push(12),
                b'r' => v.push(13),
                b'/' => v.push(b'/'),
                b'\\' => v.push(b'\\'),
                b'u' => {
                    let mut c = self.hex4()?;
                    if (c >= 0xdc00) & (c < 0xe000) {
                        return Err(Bad::Invalid);
                    }
                    if (c >= 0xd800) & (c < 0xdc00) {
                        self.want(b'\\')?;
                        self.want(b'u')?;
                        let l = self.hex4()?;
                        if !((l >= 0xdc00) & (l < 0xe000)) {
                            return Err(Bad::Invalid);
                        }
                        c = 0x10000 + ((c & 0x3ff) << 10 | (l & 0x3ff));
                    }
                    utf8(&mut v, c);
                }
                _ => return Err(Bad::Invalid),
            }
        }
    }

    fn number(&mut self) -> R<Value> {
        let b = self.i;
        if self.at(0) == b'-' {
            self.i += 1;
        }
        if self.at(0) == b'0' {
            self.i += 1;
        } else if self.digits() == 0 {
            return Err(Bad::Invalid);
        }
        let save = self.i;
        if self.at(0) == b'.' {
            self.i += 1;
            if self.digits() == 0 {
                self.i = save;
            }
        }
        let save = self.i;
        if (self.at(0) | 0x20) == b'e' {
            self.i += 1;
            let c = self.at(0);
            if (c == b'+') | (c == b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                self.i = save;
            }
        }
        // the value of a JSON number text: serde_json is trusted for it
        match serde_json::from_slice::<Value>(&self.s[b..self.i]) {
            Ok(v) => Ok(v),
            Err(_) => Err(Bad::Open),
        }
    }
    fn digits(&mut self) -> usize {
        let mut n = 0;
        loop {
            let c = self.at(0);
            if !((c >= b'0') & (c <= b'9')) {
                return n;
            }
            self.i += 1;
            n += 1;
        }
    }

    fn or(&mut self) -> R<Expr> {
        let mut v = vec![self.and()?];
        loop {
            let save = self.i;
            self.ws();
            if self.at(0) == b'|' && self.at(1) == b'|' {
                self.i += 2;
                self.ws();
                v.push(self.and()?);
            } else {
                self.i = save;
                return Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::Or(v) });
            }
        }
    }
    fn and(&mut self) -> R<Expr> {
        let mut v = vec![self.basic()?];
        loop {
            let save = self.i;
            self.ws();
            if self.at(0) == b'&' && self.at(1) == b'&' {
                self.i += 2;
                self.ws();
                v.push(self.basic()?);
            } else {
                self.i = save;
                return Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::And(v) });
            }
        }
    }
    fn basic(&mut self) -> R<Expr> {
        let c = self.at(0);
        if c == b'!' {
            self.i += 1;
            self.ws();
            let e = if self.at(0) == b'(' {
                self.paren()?
            } else {
                let p = self.prim()?;
                test(p)?
            };
            return Ok(Expr::Not(Box::new(e)));
        }
        if c == b'(' {
            return self.paren();
        }
        let l = self.prim()?;
        let save = self.i;
        self.ws();
        let (a, b) = (self.at(0), self.at(1));
        let (op, n) = if a == b'=' && b == b'=' {
            (Op::Eq, 2)
        } else if a == b'!' && b == b'=' {
            (Op::Ne, 2)
        } else if a == b'<' {
            if b == b'=' {
                (Op::Le, 2)
            } else {
                (Op::Lt, 1)
            }
        } else if a == b'>' {
            if b == b'=' {
                (Op::Ge, 2)
            } else {
                (Op::Gt, 1)
            }
        } else {
            self.i = save;
            return test(l);
        };
        self.i += n;
        self.ws();
        let r = self.prim()?;
        comparable(&l)?;
        comparable(&r)?;
        Ok(Expr::Cmp(l, op, r))
    }
    fn paren(&mut self) -> R<Expr> {
        self.want(b'(')?;
        self.ws();
        let e = self.or()?;
        self.ws();
        self.want(b')')?;
        Ok(Expr::Paren(Box::new(e)))
    }
    fn prim(&mut self) -> R<Prim> {
        let c = self.at(0);
        if (c == b'$') | (c == b'@') {
            self.i += 1;
            let segs = self.segments()?;
            return Ok(Prim::Query(Query { root: c == b'$', segs }));
        }
        if (c == b'\'') | (c == b'"') {
            return Ok(Prim::Lit(Value::String(self.string()?)));
        }
        if (c == b'-') | ((c >= b'0') & (c <= b'9')) {
            return Ok(Prim::Lit(self.number()?));
        }
        if !((c >= b'a') & (c <= b'z')) {
            return Err(Bad::Invalid);
        }
        let b = self.i;
        loop {
            let c = self.at(0);
            if ((c >= b'a') & (c <= b'z')) | ((c >= b'0') & (c <= b'9')) | (c == b'_') {
                self.i += 1;
            } else {
                break;
            }
        }
        let w = &self.s[b..self.i];
        if self.at(0) == b'(' {
            self.i += 1;
            let mut args = vec![];
            self.ws();
            if self.at(0) == b')' {
                self.i += 1;
            } else {
                loop {
                    self.ws();
                    args.push(self.arg()?);
                    self.ws();
                    match self.at(0) {
                        b',' => self.i += 1,
                        b')' => {
                            self.i += 1;
                            break;
                        }
                        _ => return Err(Bad::Invalid),
                    }
                }
            }
            for f in self.extra.iter().chain(STD) {
                if f.name.as_bytes() == w {
                    typed(f, &args)?;
                    return Ok(Prim::Func(Call { f, args }));
                }
            }
            return Err(Bad::Invalid);
        }
        if w == b"true" {
            Ok(Prim::Lit(Value::Bool(true)))
        } else if w == b"false" {
            Ok(Prim::Lit(Value::Bool(false)))
        } else if w == b"null" {
            Ok(Prim::Lit(Value::Null))
        } else {
            Err(Bad::Invalid)
        }
    }
    fn arg(&mut self) -> R<Arg> {
        let save = self.i;
        let c = self.at(0);
        if !((c == b'!') | (c == b'(')) {
            let p = self.prim()?;
            let end = self.i;
            self.ws();
            let c = self.at(0);
            if (c == b',') | (c == b')') {
                self.i = end;
                return Ok(Arg::Prim(p));
            }
            self.i = save;
        }
        Ok(Arg::Logical(self.or()?))
    }
}

fn among3(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_') | (c >= 0x80)
}
fn own(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
pub fn utf8(v: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        v.push(c as u8);
    } else if c < 0x800 {
        v.push(0xc0 | (c >> 6) as u8);
        v.push(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        v.push(0xe0 | (c >> 12) as u8);
        v.push(0x80 | (c >> 6 & 63) as u8);
        v.push(0x80 | (c & 63) as u8);
    } else {
        v.push(0xf0 | (c >> 18) as u8);
        v.push(0x80 | (c >> 12 & 63) as u8);
        v.push(0x80 | (c >> 6 & 63) as u8);
        v.push(0x80 | (c & 63) as u8);
    }
}
fn singular(q: &Query) -> bool {
    for s in &q.segs {
        if s.desc || s.sels.len() != 1 {
            return false;
        }
        match s.sels[0] {
            Sel::Name(_) | Sel::Index(_) => {}
            _ => return false,
        }
    }
    true
}
fn test(p: Prim) -> R<Expr> {
    match p {
        Prim::Lit(_) => Err(Bad::Invalid),
        Prim::Query(q) => Ok(Expr::Exist(q)),
        Prim::Func(c) => {
            if c.f.ret == Ty::V {
                Err(Bad::Invalid)
            } else {
                Ok(Expr::Func(c))
            }
        }
    }
}
fn comparable(p: &Prim) -> R<()> {
    let ok = match p {
        Prim::Lit(_) => true,
        Prim::Query(q) => singular(q),
        Prim::Func(c) => c.f.ret == Ty::V,
    };
    if ok {
        Ok(())
    } else {
        Err(Bad::Invalid)
    }
}
/// Section 2.4.3: well-typedness of function arguments
fn typed(f: &FnDef, args: &[Arg]) -> R<()> {
    if args.len() != f.args.len() {
        return Err(Bad::Invalid);
    }
    for (a, t) in args.iter().zip(f.args) {
        let ok = match (a, t) {
            (Arg::Prim(Prim::Lit(_)), t) => *t == Ty::V,
            (Arg::Prim(Prim::Query(q)), Ty::V) => singular(q),
            (Arg::Prim(Prim::Query(_)), _) => true,
            (Arg::Prim(Prim::Func(c)), Ty::L) => c.f.ret != Ty::V,
            (Arg::Prim(Prim::Func(c)), t) => c.f.ret == *t,
            (Arg::Logical(_), t) => *t == Ty::L,
        };
        if !ok {
            return Err(Bad::Invalid);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ evaluation

#[derive(Clone, Debug)]
pub enum Elem<'a> {
    Key(&'a str),
    Idx(usize),
}
#[derive(Clone, Debug)]
pub struct Node<'a> {
    pub path: Vec<Elem<'a>>,
    pub v: &'a Value,
}
impl<'a> Node<'a> {
    fn child(&self, e: Elem<'a>, v: &'a Value) -> Node<'a> {
        let mut path = Vec::with_capacity(self.path.len() + 1);
        path.extend_from_slice(&self.path);
        path.push(e);
        Node { path, v }
    }
}
pub fn children<'a>(n: &Node<'a>) -> Vec<Node<'a>> {
    let mut r = vec![];
    match n.v {
        Value::Array(a) => {
            for i in 0..a.len() {
                r.push(n.child(Elem::Idx(i), &a[i]));
            }
        }
        Value::Object(m) => {
            for (k, v) in m {
                r.push(n.child(Elem::Key(k), v));
            }
        }
        _ => {}
    }
    r
}

/// Deviations from the RFC that known-findings.json records. In this mode the
/// evaluator does what is recorded instead, and notes where that changes
/// anything; nothing but exactly the recorded behaviour is accepted.
static mut RECORDED: bool = false;
static mut NOTED: u32 = 0;
pub const NEGATIVE_SINGULAR: u32 = 1;
pub const NEGATED_CALL: u32 = 2;
pub const NESTED_NUMBERS: u32 = 4;
pub const RAW_STRINGS: u32 = 8;
pub const ORDERING: u32 = 16;
pub const THREE_DOTS: u32 = 32;
pub const DIGITS: u32 = 64;
fn recorded() -> bool {
    unsafe { RECORDED }
}
fn note(n: u32) {
    unsafe { NOTED |= n }
}
/// report every noted deviation as a finding
pub fn raise(noted: u32) {
    let mut b = 0;
    while b < 16 {
        if noted >> b & 1 == 1 {
            crate::sym::finding(9001 + b as u64);
        }
        b += 1;
    }
}
pub fn eval_recorded<'a>(q: &Query, root: &'a Value) -> (Vec<Node<'a>>, u32) {
    unsafe {
        RECORDED = true;
        NOTED = 0;
        let r = eval(q, root);
        RECORDED = false;
        (r, NOTED)
    }
}
/// What the query is to select: what the RFC says, or, where that is not what
/// `is` accepts, what is recorded.
pub fn expected<'a>(q: &Query, root: &'a Value, is: &dyn Fn(&[Node]) -> bool) -> Vec<Node<'a>> {
    let want = eval(q, root);
    if is(&want) {
        return want;
    }
    let (rec, noted) = eval_recorded(q, root);
    if noted != 0 && is(&rec) {
        raise(noted);
        return rec;
    }
    want
}
/// a singular query where it stands for a value
fn value_of<'a>(q: &Query, cur: &Node<'a>, root: &'a Value) -> Option<&'a Value> {
    let v = query(q, cur.clone(), root).pop().map(|n| n.v);
    if recorded() && v.is_some() && negative(q) {
        note(NEGATIVE_SINGULAR);
        return None;
    }
    v
}
fn negative(q: &Query) -> bool {
    q.segs.iter().any(|s| matches!(s.sels[0], Sel::Index(i) if i < 0))
}
pub fn eval<'a>(q: &Query, root: &'a Value) -> Vec<Node<'a>> {
    query(q, Node { path: vec![], v: root }, root)
}
fn query<'a>(q: &Query, cur: Node<'a>, root: &'a Value) -> Vec<Node<'a>> {
    let mut l = vec![if q.root { Node { path: vec![], v: root } } else { cur }];
    for s in &q.segs {
        let mut o = vec![];
        for n in l {
            if s.desc {
                let mut d = vec![];
                descendants(n, &mut d);
                for x in &d {
                    select(s, x, root, &mut o);
                }
            } else {
                select(s, &n, root, &mut o);
            }
        }
        l = o;
    }
    l
}
fn descendants<'a>(n: Node<'a>, o: &mut Vec<Node<'a>>) {
    let c = children(&n);
    o.push(n);
    for x in c {
        descendants(x, o);
    }
}
fn select<'a>(s: &Seg, n: &Node<'a>, root: &'a Value, o: &mut Vec<Node<'a>>) {
    for sel in &s.sels {
        match sel {
            Sel::Wild => o.extend(children(n)),
            Sel::Name(k) => {
                if let Value::Object(m) = n.v {
                    for (mk, v) in m {
                        if mk == k {
                            o.push(n.child(Elem::Key(mk), v));
                        }
                    }
                }
            }
            Sel::Index(i) => {
                if let Value::Array(a) = n.v {
                    let j = if *i < 0 { a.len() as i64 + *i } else { *i };
                    if j >= 0 && j < a.len() as i64 {
                        o.push(n.child(Elem::Idx(j as usize), &a[j as usize]));
                    }
                }
            }
            Sel::Slice(s, e, st) => {
                if let Value::Array(a) = n.v {
                    for i in slice(a.len() as i64, *s, *e, *st) {
                        o.push(n.child(Elem::Idx(i as usize), &a[i as usize]));
                    }
                }
            }
            Sel::Filter(x) => {
                for c in children(n) {
                    if holds(x, &c, root) {
                        o.push(c);
                    }
                }
            }
        }
    }
}
/// Section 2.3.4.2.2
pub fn slice(len: i64, s: Option<i64>, e: Option<i64>, st: Option<i64>) -> Vec<i64> {
    let step = st.unwrap_or(1);
    let mut r = vec![];
    if step == 0 {
        return r;
    }
    let norm = |i: i64| if i >= 0 { i } else { len + i };
    let clamp = |i: i64, lo: i64, hi: i64| {
        if i < lo {
            lo
        } else if i > hi {
            hi
        } else {
            i
        }
    };
    if step > 0 {
        let s = norm(s.unwrap_or(0));
        let e = norm(e.unwrap_or(len));
        let lower = clamp(s, 0, len);
        let upper = clamp(e, 0, len);
        let mut i = lower;
        while i < upper {
            r.push(i);
            i += step;
        }
    } else {
        let s = norm(s.unwrap_or(len - 1));
        let e = norm(e.unwrap_or(-len - 1));
        let upper = clamp(s, -1, len - 1);
        let lower = clamp(e, -1, len - 1);
        let mut i = upper;
        while lower < i {
            r.push(i);
            i += step;
        }
    }
    r
}

pub fn holds<'a>(x: &Expr, cur: &Node<'a>, root: &'a Value) -> bool {
    match x {
        Expr::Or(v) => {
            for e in v {
                if holds(e, cur, root) {
                    return true;
                }
            }
            false
        }
        Expr::And(v) => {
            for e in v {
                if !holds(e, cur, root) {
                    return false;
                }
            }
            true
        }
        Expr::Not(e) => !holds(e, cur, root),
        Expr::Paren(e) => holds(e, cur, root),
        Expr::Exist(q) => !query(q, cur.clone(), root).is_empty(),
        Expr::Func(c) => match call(c, cur, root) {
            Data::Logical(b) => b,
            Data::Nodes(n) => !n.is_empty(),
            _ => panic!("ill-typed test"),
        },
        Expr::Cmp(l, op, r) => {
            let l = prim(l, cur, root);
            let r = prim(r, cur, root);
            compare_as(l.val(), *op, r.val())
        }
    }
}
fn prim<'a>(p: &Prim, cur: &Node<'a>, root: &'a Value) -> Data<'a> {
    match p {
        Prim::Lit(v) => Data::Owned(v.clone()),
        Prim::Query(q) => match value_of(q, cur, root) {
            Some(v) => Data::Ref(v),
            None => Data::Nothing,
        },
        Prim::Func(c) => call(c, cur, root),
    }
}
fn call<'a>(c: &Call, cur: &Node<'a>, root: &'a Value) -> Data<'a> {
    let mut args: Vec<Data<'a>> = vec![];
    for (a, t) in c.args.iter().zip(c.f.args) {
        args.push(match (a, t) {
            (Arg::Prim(Prim::Query(q)), Ty::N) if singular(q) => Data::Nodes(value_of(q, cur, root).into_iter().collect()),
            (Arg::Prim(Prim::Query(q)), Ty::L) if singular(q) => Data::Logical(value_of(q, cur, root).is_some()),
            (Arg::Prim(Prim::Query(q)), Ty::N) => {
                Data::Nodes(query(q, cur.clone(), root).into_iter().map(|n| n.v).collect())
            }
            (Arg::Prim(Prim::Query(q)), Ty::L) => Data::Logical(!query(q, cur.clone(), root).is_empty()),
            (Arg::Prim(Prim::Func(f)), Ty::L) => match call(f, cur, root) {
                Data::Nodes(n) => Data::Logical(!n.is_empty()),
                d => d,
            },
            (Arg::Prim(p), _) => prim(p, cur, root),
            (Arg::Logical(e), _) => Data::Logical(holds(e, cur, root)),
        });
    }
    match c.f.pass {
        0 => (c.f.eval)(args),
        // value(): the single node of a nodelist
        1 => match &args[0] {
            Data::Nodes(n) if n.len() == 1 => Data::Ref(n[0]),
            _ => Data::Nothing,
        },
        // identity
        2 => args.pop().unwrap(),
        // the last node, as a nodelist
        3 => match args.pop().unwrap() {
            Data::Nodes(mut n) => Data::Nodes(n.pop().into_iter().collect()),
            d => d,
        },
        // the nodes of both, in order
        4 => match (args.remove(0), args.remove(0)) {
            (Data::Nodes(mut a), Data::Nodes(b)) => {
                a.extend(b);
                Data::Nodes(a)
            }
            _ => panic!("ill-typed"),
        },
        // the second if the first holds, else the third
        5 => {
            let (c, a, b) = (args.remove(0), args.remove(0), args.remove(0));
            match c {
                Data::Logical(true) => a,
                _ => b,
            }
        }
        _ => panic!("function without a reference evaluator"),
    }
}

fn compare_as(l: Option<&Value>, op: Op, r: Option<&Value>) -> bool {
    if recorded() {
        let (v, n) = compare_recorded(l, op, r);
        note(n);
        v
    } else {
        compare(l, op, r)
    }
}
/// The comparison that is recorded, and which deviations made a difference:
/// numbers inside of arrays and objects are equal if represented alike; `<=`,
/// `>`, `>=` are derived from `<` and `==` for any two values of one type.
pub fn compare_recorded(l: Option<&Value>, op: Op, r: Option<&Value>) -> (bool, u32) {
    let want = compare(l, op, r);
    let nested = |a: &Value, b: &Value| match (a, b) {
        (Value::Array(_), Value::Array(_)) | (Value::Object(_), Value::Object(_)) => a == b,
        _ => equal(a, b),
    };
    let eq = match (l, r) {
        (None, None) => true,
        (Some(a), Some(b)) => nested(a, b),
        _ => false,
    };
    let mut n = if eq != same(l, r) { NESTED_NUMBERS } else { 0 };
    let typed = match (l, r) {
        (Some(a), Some(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
        _ => false,
    };
    let lt = less(l, r);
    let v = match op {
        Op::Eq => eq,
        Op::Ne => !eq,
        Op::Lt => lt,
        Op::Gt => typed && !lt && !eq,
        Op::Le => typed && (lt || eq),
        Op::Ge => typed && !lt,
    };
    if v == want {
        return (v, 0);
    }
    if !matches!(op, Op::Eq | Op::Ne) {
        // with the right equality, would it have been right?
        let eq = same(l, r);
        let w = match op {
            Op::Gt => typed && !lt && !eq,
            Op::Le => typed && (lt || eq),
            _ => typed && !lt,
        };
        if w != want {
            n |= ORDERING;
        }
    }
    (v, n)
}
/// Section 2.3.5.2.2
pub fn compare(l: Option<&Value>, op: Op, r: Option<&Value>) -> bool {
    match op {
        Op::Eq => same(l, r),
        Op::Ne => !same(l, r),
        Op::Lt => less(l, r),
        Op::Gt => less(r, l),
        Op::Le => less(l, r) | same(l, r),
        Op::Ge => less(r, l) | same(l, r),
    }
}
fn same(l: Option<&Value>, r: Option<&Value>) -> bool {
    match (l, r) {
        (None, None) => true,
        (Some(a), Some(b)) => equal(a, b),
        _ => false,
    }
}
fn f(n: &serde_json::Number) -> f64 {
    n.as_f64().unwrap()
}
pub fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => f(x) == f(y),
        (Value::String(x), Value::String(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !equal(&x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for (k, v) in x {
                let mut found = false;
                for (k2, v2) in y {
                    if k == k2 {
                        found = equal(v, v2);
                        break;
                    }
                }
                if !found {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
fn less(l: Option<&Value>, r: Option<&Value>) -> bool {
    match (l, r) {
        (Some(Value::Number(x)), Some(Value::Number(y))) => f(x) < f(y),
        (Some(Value::String(x)), Some(Value::String(y))) => {
            // by Unicode scalar value, character by character
            let (mut a, mut b) = (x.chars(), y.chars());
            loop {
                match (a.next(), b.next()) {
                    (_, None) => return false,
                    (None, Some(_)) => return true,
                    (Some(p), Some(q)) => {
                        if p != q {
                            return p < q;
                        }
                    }
                }
            }
        }
        _ => false,
    }
}

// ------------------------------------------------------------------ output forms

fn hexd(n: u8) -> u8 {
    if n < 10 {
        b'0' + n
    } else {
        b'a' + n - 10
    }
}
/// normal-single-quoted of section 2.7
pub fn escape(s: &str, v: &mut Vec<u8>) {
    for &b in s.as_bytes() {
        match b {
            8 => v.extend(b"\\b"),
            9 => v.extend(b"\\t"),
            10 => v.extend(b"\\n"),
            12 => v.extend(b"\\f"),
            13 => v.extend(b"\\r"),
            b'\'' => v.extend(b"\\'"),
            b'\\' => v.extend(b"\\\\"),
            _ => {
                if b < 0x20 {
                    v.extend(b"\\u00");
                    v.push(if b < 16 { b'0' } else { b'1' });
                    v.push(hexd(b & 15));
                } else {
                    v.push(b)
                }
            }
        }
    }
}
pub fn decimal(mut n: usize, v: &mut Vec<u8>) {
    let mut t = vec![];
    loop {
        t.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    t.reverse();
    v.extend(t);
}
pub fn normalized(p: &[Elem]) -> Vec<u8> {
    let mut v = vec![b'$'];
    for e in p {
        v.push(b'[');
        match e {
            Elem::Key(k) => {
                v.push(b'\'');
                escape(k, &mut v);
                v.push(b'\'');
            }
            Elem::Idx(i) => decimal(*i, &mut v),
        }
        v.push(b']');
    }
    v
}
/// RFC 6901
pub fn pointer(p: &[Elem]) -> Vec<u8> {
    let mut v = vec![];
    for e in p {
        v.push(b'/');
        match e {
            Elem::Key(k) => {
                for &b in k.as_bytes() {
                    match b {
                        b'~' => v.extend(b"~0"),
                        b'/' => v.extend(b"~1"),
                        _ => v.push(b),
                    }
                }
            }
            Elem::Idx(i) => decimal(*i, &mut v),
        }
    }
    v
}


// ------------------------------------------------------------------ the recorded string form

/// The text a query is known to print as, with the deviations that made a
/// difference: names and string literals are printed as they are between
/// single quotes, a negated function without its `!`, a shorthand descendant
/// segment with a dot too many, and the shortest decimal form of a number, which
/// serde_json reads, without `float_roundtrip`, as a neighbour of some.
pub fn printed(q: &Query) -> (Vec<u8>, u32) {
    let mut v = vec![];
    let mut n = 0;
    p_query(q, &mut v, &mut n);
    (v, n)
}
fn p_quoted(s: &str, v: &mut Vec<u8>, n: &mut u32) {
    for &b in s.as_bytes() {
        if (b < 0x20) | (b == b'\'') | (b == b'\\') {
            *n |= RAW_STRINGS;
        }
    }
    v.push(b'\'');
    v.extend(s.as_bytes());
    v.push(b'\'');
}
fn p_int(i: i64, v: &mut Vec<u8>) {
    if i < 0 {
        v.push(b'-');
    }
    decimal(i.unsigned_abs() as usize, v);
}
fn p_query(q: &Query, v: &mut Vec<u8>, n: &mut u32) {
    v.push(if q.root { b'$' } else { b'@' });
    for s in &q.segs {
        if s.desc {
            v.extend(b"..");
        }
        if s.short {
            v.push(b'.');
            if s.desc {
                *n |= THREE_DOTS;
            }
            match &s.sels[0] {
                Sel::Name(k) => v.extend(k.as_bytes()),
                _ => v.push(b'*'),
            }
            continue;
        }
        v.push(b'[');
        for (i, x) in s.sels.iter().enumerate() {
            if i > 0 {
                v.push(b',');
            }
            match x {
                Sel::Name(k) => p_quoted(k, v, n),
                Sel::Wild => v.push(b'*'),
                Sel::Index(i) => p_int(*i, v),
                Sel::Slice(a, b, c) => {
                    for (i, x) in [a, b, c].iter().enumerate() {
                        if i > 0 {
                            v.push(b':');
                        }
                        if let Some(x) = x {
                            p_int(*x, v);
                        }
                    }
                }
                Sel::Filter(e) => {
                    v.push(b'?');
                    p_expr(e, v, n);
                }
            }
        }
        v.push(b']');
    }
}
fn p_expr(e: &Expr, v: &mut Vec<u8>, n: &mut u32) {
    match e {
        Expr::Or(l) | Expr::And(l) => {
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    v.extend(if matches!(e, Expr::Or(_)) { b" || " } else { b" && " });
                }
                p_expr(x, v, n);
            }
        }
        Expr::Not(x) => {
            if matches!(**x, Expr::Func(_)) {
                *n |= NEGATED_CALL;
            } else {
                v.push(b'!');
            }
            p_expr(x, v, n);
        }
        Expr::Paren(x) => {
            v.push(b'(');
            p_expr(x, v, n);
            v.push(b')');
        }
        Expr::Cmp(l, op, r) => {
            p_prim(l, v, n);
            v.extend(match op {
                Op::Eq => "==",
                Op::Ne => "!=",
                Op::Lt => "<",
                Op::Le => "<=",
                Op::Gt => ">",
                Op::Ge => ">=",
            }
            .bytes());
            p_prim(r, v, n);
        }
        Expr::Exist(q) => p_query(q, v, n),
        Expr::Func(c) => p_call(c, v, n),
    }
}
fn p_prim(p: &Prim, v: &mut Vec<u8>, n: &mut u32) {
    match p {
        Prim::Lit(Value::String(s)) => p_quoted(s, v, n),
        Prim::Lit(x) => {
            let t = x.to_string();
            if let Value::Number(x) = x {
                if t.parse::<serde_json::Number>().map_or(true, |y| y != *x) {
                    *n |= DIGITS;
                }
            }
            v.extend(t.bytes());
        }
        Prim::Query(q) if singular(q) => {
            v.push(if q.root { b'$' } else { b'@' });
            for s in &q.segs {
                v.push(b'[');
                match &s.sels[0] {
                    Sel::Name(k) => p_quoted(k, v, n),
                    Sel::Index(i) => p_int(*i, v),
                    _ => {}
                }
                v.push(b']');
            }
        }
        Prim::Query(q) => p_query(q, v, n),
        Prim::Func(c) => p_call(c, v, n),
    }
}
fn p_call(c: &Call, v: &mut Vec<u8>, n: &mut u32) {
    v.extend(c.f.name.bytes());
    v.push(b'(');
    for (i, a) in c.args.iter().enumerate() {
        if i > 0 {
            v.push(b',');
        }
        match a {
            Arg::Prim(p) => p_prim(p, v, n),
            Arg::Logical(e) => p_expr(e, v, n),
        }
    }
    v.push(b')');
}
