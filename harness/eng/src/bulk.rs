//! Requests, contents and responses of any size, written down as runs.
use crate::{
    ops::filled,
    util::*,
    val::{derr, Req},
};
use dashmap::{DashMap, DashSet};
use hop_engine::{
    command::{
        request::Context,
        response::{Context as RespContext, Instruction},
        Request, Response,
    },
    state::Value,
    Hop,
};
use std::time::Duration;

fn put_runs<T: PartialEq>(items: impl Iterator<Item = T>, show: impl Fn(&T) -> String) -> String {
    let mut o = String::from("[");
    let mut last: Option<(T, usize)> = None;
    let mut put = |x: (T, usize)| {
        if o.len() > 1 {
            o.push(',');
        }
        o.push_str(&format!("[{},{}]", show(&x.0), x.1));
    };
    for x in items {
        match &mut last {
            Some((y, n)) if *y == x => *n += 1,
            _ => {
                if let Some(l) = last.replace((x, 1)) {
                    put(l);
                }
            }
        }
    }
    if let Some(l) = last {
        put(l);
    }
    o.push(']');
    o
}

pub fn byte_runs(b: &[u8]) -> String {
    put_runs(b.iter(), |x| x.to_string())
}

fn char_runs(s: &str) -> String {
    put_runs(s.chars(), |x| u32::from(*x).to_string())
}

fn list_runs<T: AsRef<[u8]> + PartialEq>(a: &[T]) -> String {
    put_runs(a.iter(), |x| byte_runs(x.as_ref()))
}

/// Arguments, in characters if they are those of a string.
pub fn arg_runs(a: &[Vec<u8>], text: bool) -> String {
    if text && a.iter().all(|x| std::str::from_utf8(x).is_ok()) {
        put_runs(a.iter(), |x| char_runs(std::str::from_utf8(x).unwrap()))
    } else {
        list_runs(a)
    }
}

/// A value the engine or the client holds.
pub fn value_runs(v: &Value) -> String {
    let (t, s) = match v {
        Value::Bytes(b) => (0, byte_runs(b)),
        Value::Boolean(b) => (1, jb(&[*b as u8])),
        Value::Float(f) => (2, jb(&f.to_be_bytes())),
        Value::Integer(i) => (3, jb(&i.to_be_bytes())),
        Value::String(s) => (4, char_runs(s)),
        Value::List(l) => (5, list_runs(l)),
        Value::Map(m) => {
            let mut a: Vec<String> =
                m.iter().map(|r| format!("[{},{}]", byte_runs(r.key()), byte_runs(r.value()))).collect();
            a.sort();
            (6, format!("[{}]", a.join(",")))
        }
        Value::Set(s) => {
            let mut a: Vec<String> = s.iter().map(|r| byte_runs(r.key())).collect();
            a.sort();
            (7, format!("[{}]", a.join(",")))
        }
    };
    format!("{{\"t\":{},\"v\":{}}}", t, s)
}

/// The response at the start of `b` by the documented format. The keys of a map
/// are not put in runs, as their order means nothing.
pub fn decode_runs(b: &[u8], keys: bool) -> Option<(Result<String, u8>, usize)> {
    let n = u32::from_be_bytes([*b.get(0)?, *b.get(1)?, *b.get(2)?, *b.get(3)?]) as usize;
    let body = b.get(4..4usize.checked_add(n)?)?;
    let (&t, mut p) = body.split_first()?;
    fn take<'a>(p: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
        if p.len() < n {
            return None;
        }
        let (x, y) = p.split_at(n);
        *p = y;
        Some(x)
    }
    fn int(p: &mut &[u8], n: usize) -> Option<usize> {
        Some(take(p, n)?.iter().fold(0usize, |a, x| a << 8 | usize::from(*x)))
    }
    let (kind, s) = match t {
        0 => (1, jb(take(&mut p, 1)?)),
        1 => {
            let l = int(&mut p, 4)?;
            (0, byte_runs(take(&mut p, l)?))
        }
        7 => {
            let l = int(&mut p, 4)?;
            (4, char_runs(std::str::from_utf8(take(&mut p, l)?).ok()?))
        }
        2 => (2, jb(take(&mut p, 8)?)),
        3 => (3, jb(take(&mut p, 8)?)),
        4 => {
            let c = int(&mut p, 2)?;
            let mut v = vec![];
            for _ in 0..c {
                let l = int(&mut p, 4)?;
                v.push(take(&mut p, l)?);
            }
            let s = if keys {
                let mut a: Vec<String> = v.iter().map(|x| byte_runs(x)).collect();
                a.sort();
                format!("[{}]", a.join(","))
            } else {
                list_runs(&v)
            };
            (5, s)
        }
        5 => {
            let c = int(&mut p, 2)?;
            let mut v = vec![];
            for _ in 0..c {
                let l = int(&mut p, 1)?;
                let k = byte_runs(take(&mut p, l)?);
                let l = int(&mut p, 4)?;
                v.push(format!("[{},{}]", k, byte_runs(take(&mut p, l)?)));
            }
            v.sort();
            (6, format!("[{}]", v.join(",")))
        }
        6 => {
            let c = int(&mut p, 2)?;
            let mut v = vec![];
            for _ in 0..c {
                let l = int(&mut p, 2)?;
                v.push(byte_runs(take(&mut p, l)?));
            }
            v.sort();
            (7, format!("[{}]", v.join(",")))
        }
        8 | 9 => {
            let e = take(&mut p, 1)?[0];
            if !p.is_empty() {
                return None;
            }
            return Some((Err(e), 4 + n));
        }
        _ => return None,
    };
    if !p.is_empty() {
        return None;
    }
    Some((Ok(format!("{{\"t\":{},\"v\":{}}}", kind, s)), 4 + n))
}

pub fn keyed(c: u8) -> bool {
    !matches!(c, 13 | 14 | 100)
}

fn shown(c: u8, k: i64, a: &[Vec<u8>], y: u8) -> String {
    let (n, rest) = if keyed(c) && !a.is_empty() { (byte_runs(&a[0]), &a[1..]) } else { ("[]".to_owned(), a) };
    format!("\"c\":{},\"k\":{},\"n\":{},\"a\":{}", c, k, n, arg_runs(rest, y == 4))
}

pub fn req_s(r: &Req, y: u8) -> String {
    format!("{},\"y\":{}", shown(r.c, r.k.map(i64::from).unwrap_or(-1), &r.a, y), y)
}

/// A request as whoever receives it sees it.
fn seen_s(q: &Request<'_>, y: u8) -> String {
    let mut a: Vec<Vec<u8>> = vec![];
    for i in 0..300 {
        match q.arg(i) {
            Some(x) => a.push(x.to_vec()),
            None => break,
        }
    }
    let k = q.key_type().map(|k| k as i64).unwrap_or(-1);
    format!("{{{}}}", shown(q.command_id() as u8, k, &a, y))
}

const SIZES: [usize; 34] = [
    1, 2, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096,
    4097, 5000, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072,
];

const CHARS: [&str; 8] = ["x", "y", " ", "\u{e9}", "\u{7ff}", "\u{20ac}", "\u{ffff}", "\u{1f600}"];

pub struct Bulk {
    pub r: Rng,
    most: usize,
    names: Vec<Vec<u8>>,
}

impl Bulk {
    pub fn new(seed: u64) -> Bulk {
        let mut r = Rng::new(seed);
        let most = *r.pick(&[300usize, 1100, 5000, 70_000, 70_000, 200_000, 1_500_000]);
        // Names that are all alike but for one byte, at some length.
        let n = *r.pick(&[1usize, 2, 16, 64, 127, 128, 255, 256, 257, 300, 1024, 4096, 65535, 65536, 70000]);
        let mut a = vec![b'k'; n];
        let mut b = a.clone();
        b[n - 1] = b'l';
        let mut c = a.clone();
        c.push(b'k');
        if r.pct(30) {
            a[0] = b'K';
        }
        let d = filled(&mut r, 1 + n % 9);
        let mut names = vec![a, b, c, d];
        names.dedup();
        names.retain(|k| !k.is_empty() && !k.starts_with(b"__hop__:"));
        names.sort();
        names.dedup();
        Bulk { r, most, names }
    }
    pub fn size(&mut self) -> usize {
        for _ in 0..20 {
            let n = match self.r.below(12) {
                0 => 1_000_000 + self.r.below(500_000),
                1 => 1 << 20,
                2 => self.r.below(3000) + 1,
                _ => *self.r.pick(&SIZES),
            };
            if n <= self.most {
                return n;
            }
        }
        1
    }
    fn run(&mut self, n: usize) -> Vec<u8> {
        let b = *self.r.pick(&[0u8, 1, b'x', b'y', b' ', b'\n', 127, 128, 255]);
        let mut v = vec![b; n];
        if self.r.pct(40) {
            let c = self.r.next() as u8;
            let i = *self.r.pick(&[0, n / 2, n - 1]);
            v[i] = c;
        }
        v
    }
    pub fn blob(&mut self) -> Vec<u8> {
        let n = self.size();
        self.run(n)
    }
    pub fn text(&mut self) -> Vec<u8> {
        let n = self.size();
        let mut s = self.r.pick(&CHARS).repeat(n);
        if self.r.pct(40) {
            s.push_str(self.r.pick(&CHARS));
        }
        s.into_bytes()
    }
    fn count(&mut self) -> usize {
        match self.r.below(3) {
            0 => *self.r.pick(&[100usize, 126, 127, 128, 129, 200, 253, 254]),
            _ => 1 + self.r.below(4),
        }
    }
    /// Elements that may all be the same, or all different.
    fn elements(&mut self, most: usize) -> Vec<Vec<u8>> {
        let n = self.count();
        let save = self.most;
        self.most = most.min(save).min(2_000_000 / n);
        let out = match self.r.below(3) {
            0 => vec![self.blob(); n],
            1 => {
                let x = self.blob();
                let y = self.blob();
                let at = self.r.below(n);
                (0..n).map(|i| if i == at { y.clone() } else { x.clone() }).collect()
            }
            _ => {
                let long = self.blob();
                (0..n)
                    .map(|i| {
                        let mut e = if i == 0 { long.clone() } else { vec![] };
                        e.push(b'a' + (i / 26) as u8);
                        e.push(b'a' + (i % 26) as u8);
                        e.truncate(most);
                        e
                    })
                    .collect()
            }
        };
        self.most = save;
        out
    }
    /// The arguments that make a value of the type.
    fn parts(&mut self, t: u8) -> Vec<Vec<u8>> {
        match t {
            0 => vec![self.blob()],
            4 => vec![self.text()],
            5 => self.elements(usize::max_value()),
            7 => {
                let mut v = self.elements(65535);
                v.sort();
                v.dedup();
                v
            }
            _ => {
                let n = if self.r.pct(20) { 100 + self.r.below(28) } else { 1 + self.r.below(4) };
                let kn = *self.r.pick(&[2usize, 10, 127, 128, 254, 255]);
                let long = self.r.below(n);
                let mut v = vec![];
                for i in 0..n {
                    let mut k = vec![b'k'; kn];
                    k[0] = b'a' + (i / 26) as u8;
                    k[1] = b'a' + (i % 26) as u8;
                    v.push(k);
                    v.push(if i == long { self.blob() } else { vec![b'v'; 1 + i % 3] });
                }
                v
            }
        }
    }
    /// A request, and the type its arguments are written down in.
    pub fn req(&mut self, kind: impl Fn(&[u8]) -> Option<u8>) -> (Req, u8) {
        let key = self.r.pick(&self.names).clone();
        let now = kind(&key);
        let other = self.r.pick(&self.names).clone();
        let typed = |r: &mut Rng, t: u8| if now == Some(t) && r.pct(30) { None } else { Some(t) };
        match self.r.below(21) {
            0..=4 => {
                let t = *self.r.pick(&[0u8, 4, 5, 6, 7]);
                let mut a = vec![key];
                a.extend(self.parts(t));
                let k = typed(&mut self.r, t);
                (Req::new(10, k, a), t)
            }
            5..=9 => {
                let t = match now {
                    Some(t) if self.r.pct(90) && matches!(t, 0 | 4 | 5) => t,
                    _ => *self.r.pick(&[0u8, 4, 5]),
                };
                let mut a = vec![key];
                for _ in 0..if t == 5 { 1 } else { 1 + self.r.below(3) } {
                    a.extend(self.parts(t));
                }
                if t != 5 && self.r.pct(20) {
                    let x = if t == 4 { b"z".to_vec() } else { vec![9; 3] };
                    let n = self.count();
                    while a.len() <= n {
                        a.push(x.clone());
                    }
                }
                let k = typed(&mut self.r, t);
                (Req::new(20, k, a), t)
            }
            10..=12 => (Req::new(11, None, vec![key]), 0),
            13..=14 => (Req::new(21, None, vec![key]), 0),
            15 => match now {
                Some(6) => (Req::new(22, None, vec![key]), 0),
                _ => (Req::new(*self.r.pick(&[16u8, 12]), None, vec![key]), 0),
            },
            16 => (Req::new(15, None, vec![key, other]), 0),
            17 | 20 => {
                let n = if self.r.pct(70) { *self.r.pick(&[64usize, 127, 128, 129, 130, 200, 254, 255]) } else { self.count() + 1 };
                let odd = if self.r.pct(60) { n - 1 - self.r.below(2) } else { self.r.below(n) };
                // One that isn't like the others, if there are two kinds.
                let (mut key, mut other) = (key, other);
                for k in &self.names {
                    match kind(k) {
                        Some(_) => key = k.clone(),
                        None => other = k.clone(),
                    }
                }
                if self.r.pct(15) {
                    std::mem::swap(&mut key, &mut other);
                }
                let now = kind(&key);
                let a = (0..n).map(|i| if i == odd { other.clone() } else { key.clone() });
                let a: Vec<Vec<u8>> = a.collect();
                if self.r.pct(50) {
                    (Req::new(13, None, a), 0)
                } else {
                    let t = now.unwrap_or(0);
                    (Req::new(14, Some(t), a), 0)
                }
            }
            18 => {
                let mut a = self.elements(usize::max_value());
                if self.r.pct(20) {
                    a.push(vec![1]);
                }
                (Req::new(100, None, a), 0)
            }
            _ => (Req::new(12, None, vec![key]), 0),
        }
    }
    /// A value bigger than one request could make.
    fn given(&mut self) -> Value {
        let n = *self.r.pick(&[255usize, 256, 257, 300, 1000, 32767, 32768, 40000, 65000, 65280, 65535, 65536, 65537, 70000]);
        let few = n.min(700);
        match self.r.below(4) {
            0 | 1 => {
                let len = 1 + self.r.below(5);
                Value::List(vec![self.run(len); n])
            }
            2 => {
                let s = DashSet::new();
                for i in 0..few {
                    s.insert(format!("{}", i).into_bytes());
                }
                Value::Set(s)
            }
            _ => {
                let m = DashMap::new();
                for i in 0..few {
                    m.insert(format!("{}", i).into_bytes(), vec![b'v'; 1 + i % 2]);
                }
                Value::Map(m)
            }
        }
    }
}

/// Has the parser read the request bit by bit, with something behind it.
fn feeds(r: &mut Rng, b: &[u8], req: &Req, y: u8) -> (String, String) {
    let mut at = vec![1, 2, 3, b.len() - 1, b.len()];
    let mut pos = 2 + req.k.is_some() as usize;
    for x in &req.a {
        if r.pct(if req.a.len() > 8 { 3 } else { 60 }) {
            at.extend(&[pos + r.below(5), pos + 4 + r.below(x.len() + 1), pos + 3 + x.len()]);
        }
        pos += 4 + x.len();
    }
    at.retain(|&n| n <= b.len());
    at.sort_unstable();
    at.dedup();
    let mut w: Vec<String> = vec![];
    let mut q = "{\"c\":-1,\"k\":-1,\"n\":[],\"a\":[]}".to_owned();
    let mut ctx = Context::new();
    for n in at {
        let took = match guarded(|| ctx.feed(&b[..n]).map(|r| r.map(|r| (r.as_bytes().len() as i64, seen_s(&r, y))))) {
            Ok(Ok(None)) => 0,
            Ok(Ok(Some((k, s)))) => {
                q = s;
                k
            }
            Ok(Err(_)) => -1,
            Err(_) => -2,
        };
        w.push(format!("[{},{}]", n, took));
        if took != 0 {
            break;
        }
    }
    let mut more = b.to_vec();
    let extra = 1 + r.below(300);
    more.extend((0..extra).map(|i| (i % 5) as u8));
    let mut ctx = Context::new();
    let took = match guarded(|| ctx.feed(&more).map(|r| r.map(|r| r.as_bytes().len() as i64))) {
        Ok(Ok(None)) => 0,
        Ok(Ok(Some(k))) => k,
        Ok(Err(_)) => -1,
        Err(_) => -2,
    };
    w.push(format!("[{},{}]", more.len(), took));
    (q, format!("[{}]", w.join(",")))
}

/// Has the response decoder read a response as it asks for it, and in parts.
fn reads(r: &mut Rng, b: &[u8], keys: bool) -> (String, String) {
    let mut p: Vec<String> = vec![];
    let mut d = "{\"t\":-1,\"v\":[]}".to_owned();
    let mut ctx = RespContext::new();
    let parts = r.pct(70);
    let mut n = if parts { r.below(6) } else { 0 };
    loop {
        let ask = match guarded(|| ctx.feed(&b[..n])) {
            Ok(Ok(Instruction::ReadBytes(k))) if k > 0 && k < 1 << 30 => k as i64,
            Ok(Ok(Instruction::Concluded(x))) => {
                if let Response::Value(v) = &x {
                    d = match v {
                        Value::List(l) if keys => {
                            let mut a: Vec<String> = l.iter().map(|x| byte_runs(x)).collect();
                            a.sort();
                            format!("{{\"t\":5,\"v\":[{}]}}", a.join(","))
                        }
                        _ => value_runs(v),
                    };
                }
                0
            }
            Ok(Ok(Instruction::ReadBytes(_))) | Ok(Err(_)) => -1,
            Err(_) => -2,
        };
        p.push(format!("[{},{}]", n, ask));
        if ask <= 0 || n == b.len() {
            break;
        }
        let left = b.len() - n;
        n = if parts && p.len() < 8 && left > 1 {
            let step = *r.pick(&[4usize, 300, usize::max_value()]);
            n + 1 + r.below(left.min(step))
        } else {
            (n + ask as usize).min(b.len())
        };
    }
    (d, format!("[{}]", p.join(",")))
}

/// What is in the store, as far as it changed: the entries that are new or
/// different, and the names that are gone.
struct Seen(Vec<(Vec<u8>, String)>);

impl Seen {
    fn look(&mut self, hop: &Hop, names: &[Vec<u8>]) -> String {
        let mut now = vec![];
        for k in names {
            if let Some(r) = hop.state().key_ref(k) {
                now.push((k.clone(), value_runs(r.value())));
            }
        }
        let s: Vec<String> = now
            .iter()
            .filter(|x| !self.0.contains(x))
            .map(|(k, v)| format!("{{\"n\":{},\"x\":{}}}", byte_runs(k), v))
            .collect();
        let g: Vec<String> =
            self.0.iter().filter(|x| now.iter().all(|y| y.0 != x.0)).map(|x| byte_runs(&x.0)).collect();
        self.0 = now;
        format!("\"s\":[{}],\"g\":[{}]", s.join(","), g.join(","))
    }
}

/// Streams of requests of any size, or of any number of them, read by one
/// parser from one buffer.
pub fn pipes(a: &Args) {
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(60));
    let n = a.num("--n", 100);
    let base = a.num("--seed", 1).wrapping_mul(130_363);
    let mut out = Out::new(&path);
    for id in 0..n {
        let mut g = Bulk::new(base.wrapping_add(id));
        let many = g.r.pct(20);
        let count = if many { *g.r.pick(&[64usize, 65, 128, 257, 600, 1025]) } else { 2 + g.r.below(8) };
        if many {
            g.most = 4;
            g.names = vec![b"a".to_vec(), b"bb".to_vec()];
        }
        let mut all: Vec<u8> = vec![];
        let mut reqs: Vec<(Req, u8, usize)> = vec![];
        while reqs.len() < count && all.len() < 6_000_000 {
            let (q, y) = if many {
                let k = g.r.pick(&g.names).clone();
                match g.r.below(3) {
                    0 => (Req::new(16, None, vec![k]), 0),
                    1 => (Req::new(10, Some(0), vec![k, vec![g.r.below(4) as u8]]), 0),
                    _ => (Req::new(13, None, vec![k]), 0),
                }
            } else {
                g.req(|_| None)
            };
            all.extend(q.encode());
            reqs.push((q, y, all.len()));
        }
        // Everything at once, or a part of it at a time.
        let mut ends = vec![];
        if g.r.pct(60) {
            for _ in 0..1 + g.r.below(4) {
                ends.push(g.r.below(all.len()));
            }
            for _ in 0..2 {
                let at = g.r.below(reqs.len());
                let at = reqs[at].2;
                ends.push((at + g.r.below(12)).saturating_sub(6).min(all.len()));
            }
        }
        ends.push(all.len());
        ends.sort_unstable();
        ends.dedup();
        let heads: Vec<String> = reqs.iter().map(|(q, y, _)| req_s(q, *y)).collect();
        let empty = "{\"c\":-1,\"k\":-1,\"n\":[],\"a\":[]}";
        let mut w: Vec<Vec<String>> = vec![vec![]; reqs.len()];
        let mut seen: Vec<String> = vec![empty.to_owned(); reqs.len()];
        let hang = format!(
            "{{\"id\":{},\"ev\":[{{{},\"q\":{},\"w\":[[0,-3]]}}]}}", id, heads[0], empty
        );
        watched(
            || hang,
            || {
                let (mut pos, mut at) = (0, 0);
                let mut ctx = Context::new();
                'all: for end in ends {
                    while at < reqs.len() {
                        let y = reqs[at].1;
                        let b = &all[pos..end];
                        let took = match guarded(|| ctx.feed(b).map(|r| r.map(|r| (r.as_bytes().len(), seen_s(&r, y))))) {
                            Ok(Ok(None)) => 0,
                            Ok(Ok(Some((k, s)))) => {
                                seen[at] = s;
                                k as i64
                            }
                            Ok(Err(_)) => -1,
                            Err(_) => -2,
                        };
                        w[at].push(format!("[{},{}]", b.len(), took));
                        if took == 0 {
                            break;
                        }
                        if took < 0 || took as usize > b.len() {
                            break 'all;
                        }
                        pos += took as usize;
                        at += 1;
                    }
                }
                if at < reqs.len() && w[at].is_empty() {
                    w[at].push("[0,-4]".to_owned());
                }
            },
        );
        let mut evs = vec![];
        for i in 0..reqs.len() {
            if w[i].is_empty() {
                break;
            }
            evs.push(format!("{{{},\"q\":{},\"w\":[{}]}}", heads[i], seen[i], w[i].join(",")));
        }
        out.line(&format!("{{\"id\":{},\"ev\":[{}]}}", id, evs.join(",")));
    }
    println!("{}", out.done());
}

/// Histories of requests of any size on one engine.
pub fn bulk(a: &Args) {
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(60));
    let n = a.num("--n", 100);
    let base = a.num("--seed", 1).wrapping_mul(104_729);
    let long = a.num("--long", 14) as usize;
    let mut out = Out::new(&path);
    for id in 0..n {
        let mut g = Bulk::new(base.wrapping_add(id));
        // One in some hundred goes over three bytes of length.
        let vast = id % 250 == 7;
        if vast {
            g.most = 1000;
        }
        let hop = Hop::new();
        let mut evs: Vec<String> = vec![];
        let mut seen = Seen(vec![]);
        for turn in 0..long {
            if g.r.pct(6) && evs.len() + 2 < long {
                let v = g.given();
                let k = g.r.pick(&g.names).clone();
                let s = value_runs(&v);
                hop.state().insert(k.clone(), v);
                evs.push(format!("{{\"c\":200,\"n\":{},\"x\":{}}}", byte_runs(&k), s));
                let _ = seen.look(&hop, &g.names);
                continue;
            }
            let names = g.names.clone();
            let kind = |k: &[u8]| guarded(|| hop.state().key_type(k).map(|t| t as u8)).unwrap_or(None);
            let (mut req, y) = g.req(kind);
            let full = |k: &[u8]| match hop.state().key_ref(k).as_ref().map(|r| r.value()) {
                Some(Value::List(l)) => l.len(),
                Some(Value::Map(m)) => m.len(),
                Some(Value::Set(m)) => m.len(),
                _ => 0,
            };
            if (req.c == 11 || req.c == 22) && req.a.first().map_or(false, |k| full(k) > 65535) {
                continue;
            }
            if req.c == 20 && full(&req.a[0]) + req.a.len() > 65536 {
                // The response couldn't count them.
                continue;
            }
            if vast && turn == 1 {
                req = Req::new(10, Some(0), vec![names[0].clone(), vec![b'x'; (1 << 24) + g.r.below(3)]]);
            }
            let y = if vast && turn == 1 { 0 } else { y };
            let head = req_s(&req, y);
            let plen = *g.r.pick(&[0usize, 0, 3]);
            let mut buf = vec![7; plen];
            let mut r2 = Rng::new(g.r.next());
            let hang = format!("{{\"id\":{},\"ev\":[{{{},\"o\":{{\"k\":3}}}}]}}", id, head);
            let parsed = g.r.pct(50);
            let mut own = "{\"c\":-1,\"k\":-1,\"n\":[],\"a\":[]}".to_owned();
            let (o, q, w, z, d, p) = watched(
                || hang,
                || {
                    let made = guarded(|| {
                        req.with(|rq| {
                            let b = rq.as_bytes().to_vec();
                            let (q, w) = feeds(&mut r2, &b, &req, y);
                            own = seen_s(rq, y);
                            let mut ctx = Context::new();
                            // From the builder, or as a server has it.
                            let res = guarded(|| match ctx.feed(&b) {
                                Ok(Some(again)) if parsed => hop.dispatch(&again, &mut buf),
                                _ => hop.dispatch(rq, &mut buf),
                            });
                            (q, w, res)
                        })
                    });
                    let lost = "{\"c\":-1,\"k\":-1,\"n\":[],\"a\":[]}".to_owned();
                    let (q, w, res) = match made {
                        Ok(Some(x)) => x,
                        Ok(None) => return ("{\"k\":5}".to_owned(), lost, none(), 0, none(), none()),
                        Err(m) => return (format!("{{\"k\":2,\"m\":{}}}", esc(&m)), lost, none(), 0, none(), none()),
                    };
                    let res = match res {
                        Ok(x) => x,
                        Err(m) => return (format!("{{\"k\":2,\"m\":{}}}", esc(&m)), q, w, 0, none(), none()),
                    };
                    let added = if buf.len() >= plen { buf[plen..].to_vec() } else { vec![] };
                    let bad = |m: &str| format!("{{\"k\":4,\"m\":{}}}", esc(m));
                    match res {
                        Err(e) if added.is_empty() => (format!("{{\"k\":1,\"e\":{}}}", derr(e)), q, w, 0, none(), none()),
                        Err(_) => (bad("a response to an error"), q, w, 0, none(), none()),
                        Ok(()) => match decode_runs(&added, req.c == 22) {
                            Some((Ok(v), n)) if n == added.len() => {
                                let (d, p) = reads(&mut r2, &added, req.c == 22);
                                (format!("{{\"k\":0,\"v\":{}}}", v), q, w, n, d, p)
                            }
                            _ => (bad("a malformed response"), q, w, 0, none(), none()),
                        },
                    }
                },
            );
            let s = guarded(|| seen.look(&hop, &names)).unwrap_or_else(|_| "\"s\":[],\"g\":[]".to_owned());
            let stop = o.starts_with("{\"k\":2");
            evs.push(format!(
                "{{{},\"o\":{},{},\"q\":{},\"b\":{},\"w\":{},\"z\":{},\"d\":{},\"p\":{}}}",
                head, o, s, q, own, w, z, d, p
            ));
            if stop {
                break;
            }
        }
        out.line(&format!("{{\"id\":{},\"ev\":[{}]}}", id, evs.join(",")));
    }
    println!("{}", out.done());
}

fn none() -> String {
    "[]".to_owned()
}
