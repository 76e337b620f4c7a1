//! Reference matcher for the I-Regexp subset used by C11 (RFC 9485): none of the
//! characters on which I-Regexp and the usual dialects disagree; of the category
//! escapes those below: Zs, Pc, Lt and Cc are complete, the others right below U+0800.
static CATEGORIES: &[(&str, &[(u32, u32)])] = &[
    ("Zs", &[(0x20, 0x20), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]),
    ("Sc", &[(0x24, 0x24), (0xa2, 0xa5), (0x58f, 0x58f), (0x60b, 0x60b), (0x7fe, 0x7ff)]),
    ("Pc", &[(0x5f, 0x5f), (0x203f, 0x2040), (0x2054, 0x2054), (0xfe33, 0xfe34), (0xfe4d, 0xfe4f), (0xff3f, 0xff3f)]),
    ("Cc", &[(0, 0x1f), (0x7f, 0x9f)]),
    ("Pd", &[(0x2d, 0x2d), (0x58a, 0x58a), (0x5be, 0x5be)]),
    ("Lt", &[(0x1c5, 0x1c5), (0x1c8, 0x1c8), (0x1cb, 0x1cb), (0x1f2, 0x1f2), (0x1f88, 0x1f8f), (0x1f98, 0x1f9f), (0x1fa8, 0x1faf), (0x1fbc, 0x1fbc), (0x1fcc, 0x1fcc), (0x1ffc, 0x1ffc)]),
    ("Nd", &[(0x30, 0x39), (0x660, 0x669), (0x6f0, 0x6f9), (0x7c0, 0x7c9)]),
];
enum Re {
    Alt(Vec<Re>),
    Seq(Vec<Re>),
    Rep(Box<Re>, usize, usize),
    Set(bool, Vec<(u32, u32)>),
}
struct P<'a> {
    s: &'a [u32],
    i: usize,
}
const MAX: usize = 5000;

impl P<'_> {
    fn at(&self) -> u32 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.at() == c as u32 {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.seq()?];
        while self.eat('|') {
            v.push(self.seq()?);
        }
        Some(Re::Alt(v))
    }
    fn seq(&mut self) -> Option<Re> {
        let mut v = vec![];
        while self.i < self.s.len() && self.at() != '|' as u32 && self.at() != ')' as u32 {
            let a = self.atom()?;
            v.push(if self.eat('*') {
                Re::Rep(Box::new(a), 0, MAX)
            } else if self.eat('+') {
                Re::Rep(Box::new(a), 1, MAX)
            } else if self.eat('?') {
                Re::Rep(Box::new(a), 0, 1)
            } else if self.eat('{') {
                let lo = self.num()?;
                let hi = if self.eat(',') {
                    if self.at() == '}' as u32 {
                        MAX
                    } else {
                        self.num()?
                    }
                } else {
                    lo
                };
                if !self.eat('}') || hi < lo {
                    return None;
                }
                Re::Rep(Box::new(a), lo, hi)
            } else {
                a
            });
        }
        Some(Re::Seq(v))
    }
    fn num(&mut self) -> Option<usize> {
        let mut n = 0;
        let b = self.i;
        while self.at() >= '0' as u32 && self.at() <= '9' as u32 {
            n = n * 10 + (self.at() - '0' as u32) as usize;
            self.i += 1;
        }
        if self.i == b {
            None
        } else {
            Some(n)
        }
    }
    fn escape(&mut self) -> Option<u32> {
        let c = char::from_u32(self.at())?;
        self.i += 1;
        Some(match c {
            'n' => 10,
            'r' => 13,
            't' => 9,
            '(' | ')' | '*' | '+' | '-' | '.' | '?' | '[' | '\\' | ']' | '^' | '{' | '|' | '}' => c as u32,
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Re> {
        let c = char::from_u32(self.at())?;
        self.i += 1;
        match c {
            '(' => {
                let r = self.alt()?;
                if self.eat(')') {
                    Some(r)
                } else {
                    None
                }
            }
            '.' => Some(Re::Set(true, vec![(10, 10), (13, 13)])),
            '\\' if self.at() == 'p' as u32 || self.at() == 'P' as u32 => {
                let neg = self.at() == 'P' as u32;
                Some(Re::Set(neg, self.category()?))
            }
            '\\' => {
                let k = self.escape()?;
                Some(Re::Set(false, vec![(k, k)]))
            }
            '[' => {
                let neg = self.eat('^');
                let mut v = vec![];
                loop {
                    if self.i >= self.s.len() {
                        return None;
                    }
                    if self.eat(']') {
                        break;
                    }
                    if self.at() == '\\' as u32 && self.s.get(self.i + 1) == Some(&('p' as u32)) {
                        self.i += 1;
                        v.extend(self.category()?);
                        continue;
                    }
                    let lo = self.item()?;
                    if self.at() == '-' as u32 && self.i + 1 < self.s.len() && self.s[self.i + 1] != ']' as u32 {
                        self.i += 1;
                        let hi = self.item()?;
                        v.push((lo, hi));
                    } else {
                        v.push((lo, lo));
                    }
                }
                if v.is_empty() {
                    return None;
                }
                Some(Re::Set(neg, v))
            }
            ')' | '*' | '+' | '?' | ']' | '{' | '}' | '|' => None,
            _ => Some(Re::Set(false, vec![(c as u32, c as u32)])),
        }
    }
    fn category(&mut self) -> Option<Vec<(u32, u32)>> {
        let t: String = self.s[self.i + 1..].iter().take(4).filter_map(|&c| char::from_u32(c)).collect();
        let name = t.strip_prefix('{')?.strip_suffix('}')?;
        self.i += 5;
        CATEGORIES.iter().find(|(n, _)| *n == name).map(|(_, v)| v.to_vec())
    }
    fn item(&mut self) -> Option<u32> {
        if self.eat('\\') {
            return self.escape();
        }
        let c = self.at();
        self.i += 1;
        Some(c)
    }
}
/// ends reachable from the given starts
fn run(r: &Re, s: &[u32], from: &[bool]) -> Vec<bool> {
    let mut out = vec![false; s.len() + 1];
    match r {
        Re::Alt(v) => {
            for x in v {
                for (o, n) in out.iter_mut().zip(run(x, s, from)) {
                    *o |= n;
                }
            }
        }
        Re::Seq(v) => {
            let mut cur = from.to_vec();
            for x in v {
                cur = run(x, s, &cur);
            }
            out = cur;
        }
        Re::Rep(x, lo, hi) => {
            let mut cur = from.to_vec();
            for k in 0..=*hi {
                if k >= *lo {
                    let mut new = false;
                    for i in 0..out.len() {
                        new |= cur[i] & !out[i];
                        out[i] |= cur[i];
                    }
                    if !new && k > *lo {
                        break;
                    }
                }
                if k < *hi {
                    cur = run(x, s, &cur);
                }
            }
        }
        Re::Set(neg, v) => {
            for i in 0..s.len() {
                if from[i] {
                    let mut hit = false;
                    for &(l, h) in v {
                        hit |= (s[i] >= l) & (s[i] <= h);
                    }
                    out[i + 1] = hit != *neg;
                }
            }
        }
    }
    out
}
/// Does the pattern match the whole of (or a part of) the text? A pattern
/// outside of the subset matches nothing.
pub fn is_match(pat: &str, text: &str, whole: bool) -> bool {
    let p: Vec<u32> = pat.chars().map(|c| c as u32).collect();
    let mut p = P { s: &p, i: 0 };
    let Some(r) = p.alt() else { return false };
    if p.i != p.s.len() {
        return false;
    }
    let s: Vec<u32> = text.chars().map(|c| c as u32).collect();
    let mut from = vec![!whole; s.len() + 1];
    from[0] = true;
    let end = run(&r, &s, &from);
    if whole {
        end[s.len()]
    } else {
        end.iter().fold(false, |a, b| a | b)
    }
}
