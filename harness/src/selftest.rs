//! A test of the executor itself: much of std under symbolic inputs. Every
//! path's observations are compared with the native run (no claim of a property
//! rests on this; it keeps the executor honest and broad).
use crate::sym::*;
use std::borrow::Cow;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::*;
use std::fmt::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex, OnceLock, RwLock};

fn o(t: u64, s: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    observe(t, h);
}
static ONCE: OnceLock<Vec<u8>> = OnceLock::new();
static LAZY: LazyLock<Mutex<Vec<u8>>> = LazyLock::new(|| Mutex::new(vec![7]));
static COUNT: AtomicUsize = AtomicUsize::new(3);
static RW: RwLock<u32> = RwLock::new(5);
thread_local! { static TL: RefCell<Vec<u8>> = RefCell::new(vec![1, 2]); static TC: Cell<u8> = const { Cell::new(4) }; }

trait Shape {
    fn area(&self) -> u64;
}
struct A(u64);
struct B(u8, u8);
impl Shape for A {
    fn area(&self) -> u64 {
        self.0 * 3
    }
}
impl Shape for B {
    fn area(&self) -> u64 {
        self.0 as u64 * self.1 as u64
    }
}
impl Drop for B {
    fn drop(&mut self) {
        COUNT.fetch_add(1, Ordering::SeqCst);
    }
}
fn small(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    b
}

pub fn h_self() {
    match param(0) {
        0 => {
            let (a, b, c) = (small(4), small(4), small(4));
            let mut m = HashMap::new();
            for (i, k) in [a, b, c].iter().enumerate() {
                *m.entry(*k).or_insert(0usize) += i + 1;
            }
            observe(1, m.len() as u64);
            observe(2, m.get(&a).copied().unwrap_or(9) as u64);
            let mut s: HashSet<String> = HashSet::new();
            for k in [a, b, c] {
                s.insert(k.to_string());
            }
            observe(3, s.len() as u64);
            let t: BTreeSet<u8> = [a, b, c].into_iter().collect();
            observe(4, t.iter().fold(0, |x, y| x * 10 + *y as u64));
            let mut t: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
            for k in 0..40u8 {
                t.entry(k ^ a).or_default().push(k);
            }
            t.remove(&b);
            observe(5, t.range(b..).next().map_or(99, |x| *x.0 as u64));
            observe(6, t.values().map(|v| v.len() as u64).sum());
            let mut h = BinaryHeap::from(vec![a, b, c]);
            h.push(2);
            observe(7, h.pop().unwrap() as u64);
            let mut q: VecDeque<u8> = VecDeque::new();
            q.push_back(a);
            q.push_front(b);
            q.extend([c, a]);
            q.rotate_left(1);
            observe(8, q.iter().rev().fold(0, |x, y| x * 10 + *y as u64));
            let l: LinkedList<u8> = [a, b].into_iter().collect();
            observe(9, l.back().copied().unwrap() as u64);
        }
        1 => {
            let mut v: Vec<u8> = (0..5).map(|_| small(3)).collect();
            let mut w = v.clone();
            v.sort();
            observe(1, v.iter().fold(0, |x, y| x * 10 + *y as u64));
            w.dedup();
            observe(2, w.len() as u64);
            w.retain(|x| *x != 1);
            observe(3, w.len() as u64);
            v.sort_unstable_by(|a, b| b.cmp(a));
            observe(4, v[0] as u64);
            observe(5, v.iter().position(|x| *x == 1).unwrap_or(77) as u64);
            v.reverse();
            observe(6, v.binary_search(&1).is_ok() as u64);
            let d: Vec<u8> = v.drain(1..3).collect();
            observe(7, d.iter().map(|x| *x as u64).sum());
            v.splice(0..1, [4, 5]);
            observe(8, v.chunks(2).map(|c| c.len() as u64).sum::<u64>() + v.windows(2).filter(|w| w[0] < w[1]).count() as u64);
        }
        2 => {
            // sorting long things
            let a = small(3) as u64;
            let mut v: Vec<(u64, String)> = (0..50).map(|i| ((i * 37 + a) % 23, format!("{}", i * 7 % 11))).collect();
            v.sort_by_key(|x| x.0);
            o(1, &v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(","));
            v.sort_unstable();
            o(2, &format!("{:?}", &v[..5]));
            v.sort_by(|a, b| b.1.cmp(&a.1));
            o(3, &v.iter().map(|x| x.1.clone()).collect::<String>());
            v.dedup_by_key(|x| x.0);
            observe(4, v.len() as u64);
            v.select_nth_unstable(3);
            observe(5, v[3].0);
        }
        3 => {
            let s = string(3);
            observe(1, s.find('a').unwrap_or(9) as u64);
            observe(2, s.rfind("b").unwrap_or(9) as u64);
            observe(3, s.chars().count() as u64);
            observe(4, s.contains(char::is_whitespace) as u64);
            o(5, s.trim());
        }
        4 => {
            let s = class_string(3, ANY);
            o(1, &s.to_lowercase());
            o(2, &s.to_ascii_uppercase());
            observe(3, s.split(',').count() as u64);
            observe(4, s.split_whitespace().count() as u64);
        }
        5 => {
            let s = class_string(3, FILT);
            o(1, &s.replace("a", "bb"));
            o(2, &s.chars().rev().collect::<String>());
            observe(3, s.strip_prefix('@').map_or(9, |x| x.len() as u64));
            observe(4, s.char_indices().filter(|(_, c)| c.is_alphanumeric()).map(|x| x.0 as u64 + 1).sum());
            observe(5, s.eq_ignore_ascii_case("A.*") as u64);
            observe(6, s.splitn(2, '.').last().unwrap().len() as u64);
            observe(7, s.encode_utf16().map(|x| x as u64).sum());
            o(8, &s.escape_debug().to_string());
            o(9, &format!("{s:?}|{s:>5}|{s:-<6}|"));
            observe(10, s.matches("a").count() as u64);
        }
        6 => {
            let b = byte();
            o(1, &format!("{b}|{b:?}|{b:x}|{b:04X}|{b:#b}|{:>4}|{:<4}|", b, b));
            o(2, &(b as i8).to_string());
            o(3, &(b as f64 / 4.0).to_string());
            o(4, &format!("{:.2}", b as f64 / 8.0));
        }
        7 => {
            let c = u64v() as u32;
            assume(c < 0x110010);
            let c = char::from_u32(c);
            observe(1, c.is_some() as u64);
            if let Some(c) = c {
                observe(2, c.len_utf8() as u64);
                observe(3, c.len_utf16() as u64);
                observe(4, c.is_ascii_digit() as u64 + 2 * c.is_ascii_punctuation() as u64 + 4 * c.is_ascii_hexdigit() as u64);
                observe(5, c.to_digit(16).map_or(99, |x| x as u64));
                observe(6, c.is_control() as u64);
                let mut s = String::new();
                s.push(c);
                observe(7, s.as_bytes()[0] as u64);
            }
        }
        8 => {
            let v = f64::from_bits(u64v());
            observe(1, v.floor().to_bits() & if v.is_nan() { 0 } else { !0 });
            observe(2, v.ceil().to_bits() & if v.is_nan() { 0 } else { !0 });
            observe(3, v.trunc().to_bits() & if v.is_nan() { 0 } else { !0 });
            observe(4, v.abs().to_bits());
            observe(5, v as i64 as u64);
            observe(6, v as u64);
            observe(7, v as i32 as u64);
            observe(8, (v as f32).is_infinite() as u64);
            observe(9, v.is_sign_negative() as u64 + 2 * v.is_finite() as u64 + 4 * v.is_normal() as u64);
            observe(10, v.total_cmp(&1.5) as i8 as u64);
            observe(11, v.max(0.25).min(8.0).to_bits());
            observe(12, v.copysign(-1.0).to_bits());
            observe(13, v.clamp(-1.0, 1.0).is_nan() as u64);
            observe(14, v.partial_cmp(&0.5).map_or(7, |x| x as i8 as u64));
        }
        9 => {
            let v = f64::from_bits(u64v());
            assume(v.abs() < 1e6);
            observe(1, v.round().to_bits());
            observe(2, (v.fract() == 0.0) as u64);
            observe(7, (v % 1.0 == 0.0) as u64);
            observe(8, ((v - 0.5).abs() < f64::EPSILON) as u64);
            observe(3, (v * 2.0 + 1.0 > v) as u64);
            observe(4, v.sqrt().is_nan() as u64);
            observe(5, (v == (v as i64) as f64) as u64);
            observe(6, v.signum().to_bits());
        }
        10 => {
            let (a, b) = (i64v(), i64v());
            observe(1, a.checked_add(b).is_some() as u64);
            observe(2, a.wrapping_sub(b) as u64);
            observe(3, a.saturating_add(b) as u64);
            observe(4, a.saturating_sub(b) as u64);
            observe(5, a.overflowing_neg().1 as u64);
            observe(6, a.leading_zeros() as u64 * 100 + a.trailing_zeros() as u64);
            observe(7, a.count_ones() as u64);
            observe(8, a.rotate_left(7) as u64 ^ b.swap_bytes() as u64);
            observe(9, a.abs_diff(b));
            observe(10, a.signum() as u64);
            observe(11, a.unsigned_abs());
            observe(12, (a as i128 - b as i128 > 5) as u64);
            observe(13, a.max(b).min(100) as u64);
            observe(14, a.clamp(-5, 5) as u64);
            observe(15, a.rem_euclid(7) as u64);
            observe(16, a.div_euclid(10) as u64);
            observe(17, a.checked_abs().is_none() as u64);
            observe(18, u32::try_from(a).is_ok() as u64 + 2 * u8::try_from(b).is_ok() as u64);
            observe(19, a.wrapping_mul(3) as u64);
            observe(20, a.saturating_mul(2) as u64);
            observe(21, a.checked_shl(70).is_none() as u64);
            observe(22, a.checked_next_multiple_of_(8));
            observe(23, a.reverse_bits() as u64);
            observe(24, (a as u64).is_power_of_two() as u64);
            observe(25, a.midpoint_(b));
        }
        11 => {
            let a = small(6);
            let f: Vec<Box<dyn Shape>> = vec![Box::new(A(a as u64)), Box::new(B(a, 2))];
            observe(1, f.iter().map(|x| x.area()).sum());
            drop(f);
            observe(2, COUNT.load(Ordering::Relaxed) as u64);
            let g: Vec<Box<dyn Fn(u8) -> u8>> = vec![Box::new(move |x| x ^ a), Box::new(|x| x + 1)];
            observe(3, g[(a & 1) as usize](9) as u64);
            let r = Rc::new(RefCell::new(vec![a]));
            let r2 = Rc::clone(&r);
            r2.borrow_mut().push(3);
            observe(4, r.borrow().len() as u64 + 10 * Rc::strong_count(&r) as u64);
            let w = Rc::downgrade(&r);
            drop(r);
            drop(r2);
            observe(5, w.upgrade().is_none() as u64);
            let s: Arc<str> = Arc::from("héllo");
            observe(6, s.len() as u64);
            let c: Cow<str> = if a > 2 { Cow::Borrowed("x") } else { Cow::Owned("y".repeat(a as usize)) };
            observe(7, c.len() as u64);
            observe(8, ONCE.get_or_init(|| vec![1, 2, 3]).len() as u64);
            LAZY.lock().unwrap().push(a);
            observe(9, LAZY.lock().unwrap().len() as u64);
            *RW.write().unwrap() += 1;
            observe(10, *RW.read().unwrap() as u64);
            TL.with(|v| v.borrow_mut().push(a));
            observe(11, TL.with_borrow(|v| v.len() as u64));
            TC.set(TC.get() + 1);
            observe(12, TC.get() as u64);
            let oc = OnceCell::new();
            observe(13, *oc.get_or_init(|| a) as u64);
            let mut x = Some(a);
            observe(14, x.take().into_iter().chain([1, 2]).map(u64::from).sum());
            let mut y = vec![1u8, 2];
            observe(15, std::mem::take(&mut y).len() as u64 + y.len() as u64);
        }
        12 => {
            let v: Vec<u64> = (0..4).map(|_| small(5) as u64).collect();
            observe(1, v.iter().zip(v.iter().skip(1)).filter(|(a, b)| a < b).count() as u64);
            observe(2, v.iter().flat_map(|x| 0..*x).sum());
            observe(3, v.iter().scan(0, |s, x| { *s += x; Some(*s) }).max().unwrap());
            observe(4, v.iter().take_while(|x| **x > 0).count() as u64);
            observe(5, *v.iter().max_by_key(|x| **x % 3).unwrap());
            observe(6, *v.iter().min_by(|a, b| b.cmp(a)).unwrap());
            let (e, f): (Vec<u64>, Vec<u64>) = v.iter().partition(|x| **x & 1 == 0);
            observe(7, e.len() as u64 * 10 + f.len() as u64);
            observe(8, v.iter().try_fold(0u64, |a, x| a.checked_sub(*x).map(|y| y + 9)).unwrap_or(1000));
            observe(9, v.iter().rev().step_by(2).product::<u64>());
            let mut p = v.iter().peekable();
            let mut runs = 0;
            while let Some(x) = p.next() {
                if p.peek() != Some(&x) {
                    runs += 1;
                }
            }
            observe(10, runs);
            observe(11, v.concat_());
            observe(12, v.iter().any(|x| *x == 3) as u64 + 2 * v.iter().all(|x| *x < 4) as u64);
            observe(13, v.iter().copied().reduce(|a, b| a * 2 + b).unwrap());
            observe(14, std::iter::successors(Some(v[0]), |x| (*x < 100).then(|| x * 2 + 1)).count() as u64);
            observe(15, v.contains(&4) as u64 + 2 * v.starts_with(&[1]) as u64);
            observe(16, v.iter().cmp([1, 2, 3].iter()) as i8 as u64);
            observe(17, v.iter().is_sorted() as u64);
            let a: [u64; 4] = v.clone().try_into().unwrap();
            observe(18, a.map(|x| x + 1).iter().sum());
            observe(19, v.rsplit(|x| *x == 2).count() as u64);
            observe(20, v.iter().rposition(|x| *x == 1).unwrap_or(50) as u64);
        }
        13 => {
            let s = class_string(3, NUM);
            observe(1, s.parse::<i64>().map_or(12345, |x| x as u64));
            observe(2, s.parse::<u8>().map_or(12345, |x| x as u64));
            observe(3, s.parse::<f64>().map_or(12345, |x| x.to_bits()));
        }
        14 => {
            let s = class_string(4, KEY);
            for (i, p) in ["^a+b?$", "(?i)B.C", "a(b|c)*", "[^a]{2}"].iter().enumerate() {
                let r = regex::Regex::new(p).unwrap();
                observe(i as u64, r.find(&s).map_or(99, |m| (m.start() * 10 + m.end()) as u64));
            }
            let r = regex::RegexBuilder::new("A.").case_insensitive(true).dot_matches_new_line(true).build().unwrap();
            observe(9, r.is_match(&s) as u64);
        }
        15 => {
            let a = small(4);
            let mut s = String::new();
            let _ = write!(s, "{:?} {:?} {:?}", Some(a), [a, 1], (a, "x"));
            let _ = writeln!(s, "{:#?}", vec![Some(a)]);
            o(1, &s);
            o(2, &serde_json::json!({"a": [a, 1.5, null, "é\n"], "b": {}}).to_string());
            o(3, &serde_json::to_string_pretty(&vec![a]).unwrap());
            let v: serde_json::Value = serde_json::from_str("[1, {\"a\": 2.5e3, \"b\": [true]}]").unwrap();
            observe(4, v.pointer("/1/b/0").is_some() as u64);
            observe(5, v[1]["a"].as_f64().unwrap().to_bits());
            o(6, &String::from_utf16(&[0x61 + a as u16, 0xd83d, 0xde00]).unwrap());
            o(7, &String::from_utf8_lossy(&[0x61, 0xff, a]));
            let x: u128 = (a as u128 + 3) * 0x1_0000_0000_0000_0000_0001;
            observe(8, (x / 7) as u64);
            observe(9, (x % 1_000_000_007) as u64);
            observe(10, (x >> 70) as u64);
        }
        _ => {
            // things of the operating system
            let a = small(3);
            let t = std::time::Instant::now();
            observe(1, (t.elapsed().as_secs() < 1000) as u64);
            observe(2, std::env::var("SURELY_NOT_SET_HERE").is_err() as u64);
            observe(3, std::env::var_os("SURELY_NOT_SET_HERE").is_none() as u64);
            let h = std::thread::current().id() == std::thread::current().id();
            observe(4, h as u64);
            if a == 2 {
                eprint!("");
            }
            observe(5, std::thread::panicking() as u64);
            debug_assert!(a < 3);
        }
    }
    reach(1);
}
trait Ext {
    fn checked_next_multiple_of_(self, n: i64) -> u64;
    fn midpoint_(self, o: Self) -> u64;
}
impl Ext for i64 {
    fn checked_next_multiple_of_(self, n: i64) -> u64 {
        (self as u64).checked_next_multiple_of(n as u64).unwrap_or(1)
    }
    fn midpoint_(self, o: i64) -> u64 {
        (self as u64).midpoint(o as u64)
    }
}
trait Cat {
    fn concat_(&self) -> u64;
}
impl Cat for Vec<u64> {
    fn concat_(&self) -> u64 {
        let v = [self.as_slice(), &[9], self.as_slice()].concat();
        v.iter().fold(0u64, |a, b| a.wrapping_mul(11) + b)
    }
}
