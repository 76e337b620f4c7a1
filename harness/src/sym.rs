//! The verification intrinsics. The symbolic executor intercepts the
//! `__sym_*` calls; natively (replay) they read one concrete input.
use serde_json::{Map, Number, Value};

extern "C" {
    pub fn __symc_set(b: *const u8, n: usize, p: *const u64, np: usize);
    fn __sym_bytes(p: *mut u8, n: u64);
    fn __sym_param(i: u64) -> u64;
    fn __sym_assume(c: u32);
    fn __sym_assert(c: u32, id: u64);
    fn __sym_finding(id: u64);
    fn __sym_observe(t: u64, v: u64);
    fn __sym_reach(t: u64);
    fn __sym_concrete(v: u64) -> u64;
    fn __sym_steps() -> u64;
    fn __sym_reps() -> u64;
}

pub fn fill(b: &mut [u8]) {
    unsafe { __sym_bytes(b.as_mut_ptr(), b.len() as u64) }
}
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn u64v() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_le_bytes(b)
}
pub fn i64v() -> i64 {
    u64v() as i64
}
pub fn param(i: u64) -> usize {
    unsafe { __sym_param(i) as usize }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u32) }
}
pub fn check(c: bool, id: u64) {
    unsafe { __sym_assert(c as u32, id) }
}
/// a deviation that is recognised exactly: the driver knows which ones are
/// recorded for which property, and any other is a violation
pub fn finding(id: u64) {
    unsafe { __sym_finding(id) }
}
pub fn observe(t: u64, v: u64) {
    unsafe { __sym_observe(t, v) }
}
pub fn reach(t: u64) {
    unsafe { __sym_reach(t) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_concrete(v) }
}
/// What it takes to run f: instructions executed; natively, where violations
/// are replayed, the least time out of many runs, and 0 otherwise.
pub fn cost(f: &dyn Fn()) -> u64 {
    let mut least = u64::MAX;
    let n = unsafe { __sym_reps() };
    for _ in 0..n {
        let a = unsafe { __sym_steps() };
        f();
        let b = unsafe { __sym_steps() };
        least = least.min(b - a);
    }
    if n == 0 {
        return 0;
    }
    least
}
/// A symbolic choice among 0..n, decided (one path per alternative).
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = byte();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
/// A symbolic flag that stays symbolic.
pub fn flag() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}

/// Branch-free membership in a list of ranges.
pub fn among(b: u8, r: &[(u8, u8)]) -> bool {
    let mut c = false;
    for &(l, h) in r {
        c |= (b >= l) & (b <= h);
    }
    c
}

pub const ANY: u8 = 0x80; // any 7-bit byte
pub const STRUCT: u8 = 0x81; // bytes that matter to the grammar
pub const DIGIT: u8 = 0x82;
pub const WS: u8 = 0x83; // blanks and some near misses
pub const HIGH: u8 = 0x84; // any byte at all; the text is assumed to be UTF-8
pub const NUM: u8 = 0x85;
pub const OPS: u8 = 0x86;
pub const HEX: u8 = 0x87;
pub const KEY: u8 = 0x88; // a..c
pub const SIGNDIGIT: u8 = 0x89;
pub const FILT: u8 = 0x8a;

pub fn class(c: u8) -> &'static [(u8, u8)] {
    match c {
        ANY => &[(0, 127)],
        STRUCT => &[
            (b'$', b'$'),
            (b'.', b'.'),
            (b'*', b'*'),
            (b'[', b']'),
            (b'\'', b'\''),
            (b'"', b'"'),
            (b'0', b'2'),
            (b'-', b'-'),
            (b':', b':'),
            (b',', b','),
            (b'?', b'@'),
            (b' ', b' '),
            (b'a', b'b'),
            (b'_', b'_'),
        ],
        DIGIT => &[(b'0', b'9')],
        WS => &[(9, 13), (b' ', b' '), (b'a', b'a'), (0x1c, 0x1f), (0, 0)],
        HIGH => &[(0, 255)],
        NUM => &[(b'0', b'9'), (b'.', b'.'), (b'e', b'e'), (b'E', b'E'), (b'+', b'+'), (b'-', b'-')],
        OPS => &[(b'!', b'!'), (b'&', b'&'), (b'|', b'|'), (b'<', b'>'), (b' ', b' '), (b'(', b')'), (b'a', b'a')],
        HEX => &[(b'0', b'9'), (b'A', b'G'), (b'a', b'g'), (b'\'', b'\''), (b'\\', b'\\')],
        KEY => &[(b'a', b'c')],
        SIGNDIGIT => &[(b'0', b'9'), (b'-', b'-'), (b' ', b' ')],
        FILT => &[
            (b'@', b'@'),
            (b'$', b'$'),
            (b'.', b'.'),
            (b'*', b'*'),
            (b'a', b'a'),
            (b'0', b'1'),
            (b'\'', b'\''),
            (b'[', b'['),
            (b']', b']'),
            (b'=', b'='),
            (b'<', b'<'),
            (b'!', b'!'),
            (b'&', b'&'),
            (b'|', b'|'),
            (b'(', b')'),
            (b' ', b' '),
            (b',', b','),
            (b'?', b'?'),
        ],
        _ => panic!("class"),
    }
}

/// Instantiate a template: bytes >= 0x80 stand for one symbolic byte of that
/// class; 0xf0 n c repeats class c n times; 0xf1 b is the byte b.
pub fn text(t: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len() + 16);
    let mut hi = false;
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0xf1 {
            v.push(t[i + 1]);
            i += 2;
            continue;
        }
        let (c, n) = if t[i] == 0xf0 {
            i += 2;
            (t[i], t[i - 1])
        } else {
            (t[i], 1)
        };
        i += 1;
        for _ in 0..n {
            if c < 0x80 {
                v.push(c);
            } else {
                let b = byte();
                if c == HIGH {
                    hi = true;
                } else {
                    assume(among(b, class(c)));
                }
                v.push(b);
            }
        }
    }
    if hi {
        assume(std::str::from_utf8(&v).is_ok());
    }
    v
}
pub fn as_str(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// n symbolic bytes forming a UTF-8 string
pub fn string(n: usize) -> String {
    let mut v = vec![0u8; n];
    fill(&mut v);
    assume(std::str::from_utf8(&v).is_ok());
    unsafe { String::from_utf8_unchecked(v) }
}
/// n symbolic bytes of a class
pub fn class_string(n: usize, c: u8) -> String {
    let mut v = vec![0u8; n];
    fill(&mut v);
    for &b in &v {
        assume(among(b, class(c)));
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// A symbolic JSON document: shape decided by symbolic choices, keys strictly
/// increasing symbolic bytes in a..d, leaves distinct numbers.
pub fn doc(depth: usize, width: usize, next: &mut i64) -> Value {
    let k = if depth == 0 { 0 } else { pick(2 * width + 3) };
    if k == 0 {
        // 555 among the parameters: leaves that are all the same
        *next += !(0..12).any(|i| param(i) == 555) as i64;
        return Value::Number(Number::from(*next));
    }
    let k = k - 1;
    if k <= width {
        let mut a = vec![];
        for _ in 0..k {
            a.push(doc(depth - 1, width, next));
        }
        Value::Array(a)
    } else {
        let n = k - width - 1;
        let mut m = Map::new();
        let mut prev = b'a' - 1;
        for _ in 0..n {
            let b = byte();
            assume((b > prev) & (b <= b'd'));
            prev = b;
            let v = doc(depth - 1, width, next);
            m.insert(unsafe { String::from_utf8_unchecked(vec![b]) }, v);
        }
        Value::Object(m)
    }
}
