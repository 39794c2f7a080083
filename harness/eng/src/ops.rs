//! Seeded histories of requests against one engine, and replay of the
//! transitions TLC enumerates.
use crate::{
    util::*,
    val::*,
};
use hop_engine::Hop;
use std::{
    io::{BufRead, BufReader},
    time::Duration,
};

pub fn i8b(i: i64) -> Vec<u8> {
    i.to_be_bytes().to_vec()
}

pub fn f8b(f: f64) -> Vec<u8> {
    f.to_be_bytes().to_vec()
}

const INTS: [i64; 18] = [
    0, 1, -1, 2, -2, 127, 128, 255, 256, -256, 65535, 1 << 31, 1 << 32, -(1 << 32),
    i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1,
];

fn floats() -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 0.25, 0.5, 1.0, -1.0, 1.5, 2.0, 3.0, -2.75, 1e3, 1e15, 9007199254740992.0,
        9007199254740991.0, -9007199254740993.0, 0.1, 0.2, 0.3, -0.1, 1e300, -1e300, f64::MAX,
        f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-310, f64::INFINITY, f64::NEG_INFINITY,
        f64::NAN, 1e16, 1e-16, 1.0000000000000002, 4503599627370496.5, -4503599627370495.5,
    ];
    v.push(f64::from_bits(0x000f_ffff_ffff_ffff));
    v
}

const STRS: [&str; 21] = [
    "", "x", "foo", "\u{e9}", "\u{20ac}uro", "\u{1f600}", "a\u{301}", "\u{7ff}\u{800}", "\u{ffff}",
    "\u{10ffff}\u{10000}", "true", "0", " ", "\n", " \t\r\n", "\u{a0}\u{2003}", "\0", " A b ", "\u{feff}", "\u{130}\u{df}",
    "-1:k=v,\"\\'",
];

const BAD: [&[u8]; 14] = [
    &[0x80], &[0xff], &[0xc3], &[0xc0, 0x80], &[0xe2, 0x82], &[0xed, 0xa0, 0x80],
    &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x80, 0x80, 0x80], &[0x61, 0xff, 0x62], &[0xe0, 0x80, 0x80],
    &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc3, 0x28], &[0xe2, 0x28, 0xa1], &[0x61, 0xf0, 0x9f, 0x98],
];

/// Bytes of one kind, or any.
pub fn filled(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(20) {
        0..=4 => vec![0; n],
        5 => vec![b' '; n],
        6 => vec![*r.pick(b"\n\t\r :=,0A"); n],
        7 => vec![255; n],
        _ => r.bytes(n),
    }
}

pub struct Gen {
    pub r: Rng,
    floats: Vec<f64>,
}

impl Gen {
    pub fn new(seed: u64) -> Gen {
        Gen { r: Rng::new(seed), floats: floats() }
    }
    fn int(&mut self) -> Vec<u8> {
        if self.r.pct(80) { i8b(*self.r.pick(&INTS)) } else { i8b(self.r.next() as i64) }
    }
    fn float(&mut self) -> Vec<u8> {
        match self.r.below(10) {
            0 => f8b(f64::from_bits(self.r.next())),
            1 | 2 => f8b(self.r.next() as i64 as f64 / 1024.0),
            _ => {
                let f = self.floats.clone();
                f8b(*self.r.pick(&f))
            }
        }
    }
    fn text(&mut self) -> Vec<u8> {
        match self.r.below(10) {
            0 | 1 => self.r.pick(&BAD).to_vec(),
            2 => {
                let mut a = self.r.pick(&STRS).as_bytes().to_vec();
                a.extend_from_slice(*self.r.pick(&BAD));
                a
            }
            _ => {
                let mut a = self.r.pick(&STRS).as_bytes().to_vec();
                if self.r.pct(30) {
                    a.extend_from_slice(self.r.pick(&STRS).as_bytes());
                }
                a
            }
        }
    }
    fn blob(&mut self) -> Vec<u8> {
        let n = *self.r.pick(&[0usize, 1, 1, 2, 3, 7, 8, 9, 16, 33]);
        filled(&mut self.r, n)
    }
    pub fn arg(&mut self, kind: u8) -> Vec<u8> {
        match kind {
            1 => match self.r.below(5) {
                0 => vec![0],
                1 => vec![1],
                2 => vec![255, 0],
                3 => vec![0, 1],
                _ => self.blob(),
            },
            2 => {
                let mut x = self.float();
                self.stretch(&mut x);
                x
            }
            3 => {
                let mut x = self.int();
                self.stretch(&mut x);
                x
            }
            4 => self.text(),
            _ => {
                if self.r.pct(60) { self.blob() } else { self.text() }
            }
        }
    }
    fn stretch(&mut self, x: &mut Vec<u8>) {
        match self.r.below(12) {
            0 => x.push(7),
            1 => x.truncate(7),
            2 => x.truncate(1),
            _ => {}
        }
    }
    fn keys(&mut self) -> Vec<Vec<u8>> {
        let pool: [&[u8]; 8] = [b"a", b"b", b"c", b"\x00", b"\xff\xfe", b"k:\xe2\x82\xac", b"__hop__", b"__hop_:z"];
        let mut v: Vec<Vec<u8>> = vec![b"a".to_vec(), b"b".to_vec()];
        for _ in 0..2 {
            let k = self.r.pick(&pool).to_vec();
            if !v.contains(&k) {
                v.push(k);
            }
        }
        if self.r.pct(5) {
            v.push(vec![b'L'; 300]);
        }
        v
    }
    /// A request of the given command, mostly well-formed.
    pub fn req(&mut self, c: u8, keys: &[Vec<u8>], kinds: &[(Vec<u8>, Val)], odd: bool) -> Req {
        let key = self.r.pick(keys).clone();
        let has = kinds.iter().find(|(k, _)| *k == key).map(|(_, v)| v.t);
        let natural: u8 = match c {
            0..=3 => *self.r.pick(&[2, 3, 3]),
            20 => *self.r.pick(&[0, 4, 5]),
            21 => *self.r.pick(&[0, 4, 5, 6, 7]),
            22 => 6,
            _ => self.r.below(8) as u8,
        };
        let k = match c {
            12 | 13 | 15 | 16 | 100 | 101 => if self.r.pct(4) { Some(natural) } else { None },
            14 => if self.r.pct(6) { None } else { Some(has.filter(|_| self.r.pct(60)).unwrap_or(natural)) },
            _ => match self.r.below(20) {
                0..=7 => None,
                8..=13 => Some(natural),
                14..=17 => Some(has.unwrap_or(natural)),
                _ => Some(self.r.below(8) as u8),
            },
        };
        let eff = k.or(has).unwrap_or(if c <= 3 { 3 } else { 0 });
        let mut a: Vec<Vec<u8>> = vec![];
        if c != 100 && c != 101 {
            a.push(key);
        }
        match c {
            2 | 3 => {
                let kind = if eff == 2 { 2 } else { 3 };
                a.push(self.arg(kind));
            }
            10 => {
                let n = match eff {
                    5 | 7 => self.r.below(4) + 1,
                    6 => self.r.below(3) * 2 + 2,
                    _ => 1,
                };
                for _ in 0..n {
                    a.push(self.arg(eff));
                }
            }
            13 | 14 => {
                for _ in 0..self.r.below(3) {
                    a.push(self.r.pick(keys).clone());
                }
            }
            15 => a.push(self.r.pick(keys).clone()),
            20 => {
                for _ in 0..self.r.below(3) + 1 {
                    a.push(self.arg(eff));
                }
            }
            100 => {
                for _ in 0..self.r.below(5) {
                    a.push(self.arg(0));
                }
            }
            _ => {}
        }
        if odd || self.r.pct(8) {
            match self.r.below(6) {
                0 => {
                    a.pop();
                }
                1 => a.clear(),
                2 => a.push(vec![]),
                3 => {
                    let x = self.blob();
                    a.push(x);
                }
                4 if a.len() > 1 => {
                    let i = 1 + self.r.below(a.len() - 1);
                    a[i] = self.blob();
                }
                _ => {
                    let kd = self.r.below(8) as u8;
                    let x = self.arg(kd);
                    a.push(x);
                }
            }
        }
        if c == 101 {
            a.clear();
        }
        // -0 - 0: whose sign of zero comes of it is nobody's concern.
        if c == 3 && eff == 2 && a.len() > 1 && a[1].starts_with(&[0; 8]) {
            a[1][0] = 0x40;
        }
        Req::new(c, k, a)
    }
}

pub fn mix(profile: &str, g: &mut Gen) -> u8 {
    let w: &[(u8, usize)] = match profile {
        "K01" => &[(10, 30), (11, 15), (12, 9), (13, 9), (14, 9), (15, 14), (16, 9), (0, 1), (20, 2), (22, 1), (101, 1)],
        "K02" => &[(0, 14), (1, 14), (2, 24), (3, 24), (10, 12), (11, 5), (12, 4), (15, 2), (20, 1)],
        "K03" => &[(20, 34), (21, 20), (22, 12), (100, 8), (10, 14), (11, 4), (12, 5), (15, 2), (0, 1)],
        "M01" => &[(101, 25), (10, 20), (11, 20), (12, 10), (0, 10), (20, 10), (15, 5)],
        _ => &[(0, 5), (1, 5), (2, 6), (3, 6), (10, 14), (11, 6), (12, 6), (13, 5), (14, 6), (15, 8), (16, 5), (20, 10), (21, 8), (22, 6), (100, 3), (101, 2)],
    };
    let total: usize = w.iter().map(|x| x.1).sum();
    let mut n = g.r.below(total);
    for (c, x) in w {
        if n < *x {
            return *c;
        }
        n -= x;
    }
    unreachable!()
}

/// Keys that name something in the store.
fn named(r: &Req) -> Vec<Vec<u8>> {
    match r.c {
        100 | 101 => vec![],
        13 | 14 => r.a.clone(),
        15 => r.a.iter().take(2).cloned().collect(),
        _ => r.a.iter().take(1).cloned().collect(),
    }
}

/// Whether a request names a key the engine reserves or can't have; only K05
/// sends these.
pub fn reserved(r: &Req) -> bool {
    named(r).iter().any(|k| k.is_empty() || k.starts_with(b"__hop__:"))
}

pub struct History {
    pub head: String,
    pub ev: Vec<String>,
}

impl History {
    pub fn s(&self) -> String {
        format!("{{{},\"ev\":[{}]}}", self.head, self.ev.join(","))
    }
}

pub fn event(r: &Req, res: &Res, snap: &[(Vec<u8>, Val)]) -> String {
    format!("{{{},\"o\":{},\"s\":{}}}", r.s(), res.s(), snap_s(snap))
}

/// Runs one request, recording a history that ends in a hang if it never returns.
fn step(hop: &Hop, h: &mut History, r: &Req, keys: &[Vec<u8>], prefix: &[u8]) -> Res {
    let pending = || {
        format!(
            "{{{},\"ev\":[{}{}{{{},\"o\":{{\"k\":3}},\"s\":[]}}]}}",
            h.head,
            h.ev.join(","),
            if h.ev.is_empty() { "" } else { "," },
            r.s()
        )
    };
    let res = watched(pending, || run(hop, r, prefix));
    let snap = watched(pending, || guarded(|| snapshot(hop, keys)));
    let snap = snap.unwrap_or_default();
    h.ev.push(event(r, &res, &snap));
    res
}

pub fn ops(a: &Args) {
    let profile = a.str("--profile", "K04");
    let n = a.num("--n", 100) as usize;
    let len = a.num("--len", 30) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(10));
    let mut out = Out::new(&path);
    for i in 0..n {
        let mut g = Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        let mut keys = g.keys();
        let hop = Hop::new();
        if profile == "K05" {
            if g.r.pct(15) {
                keys.push(b"__hop__:stats".to_vec());
                keys.push(vec![]);
            }
        }
        let mut h = History { head: format!("\"id\":{},\"u\":{}", i, jbs(&keys)), ev: vec![] };
        let big = profile == "K05" && g.r.pct(6);
        for _ in 0..len {
            let kinds = guarded(|| snapshot(&hop, &keys)).unwrap_or_default();
            let c = mix(&profile, &mut g);
            let odd = match profile.as_str() {
                "K05" => g.r.pct(35),
                "K04" => g.r.pct(40),
                _ => false,
            };
            let mut r = g.req(c, &keys, &kinds, odd);
            if big && c != 101 && g.r.pct(10) {
                let n = *g.r.pick(&[3usize, 200, 254, 255]);
                while r.a.len() < n {
                    let x = g.r.bytes(1);
                    r.a.push(x);
                }
                r.a.truncate(255);
            }
            if reserved(&r) && profile != "K05" {
                continue;
            }
            // Every key named has to be in the universe of the history.
            if named(&r).iter().any(|k| !k.is_empty() && !keys.contains(k)) {
                r.a.iter_mut().for_each(|x| {
                    if !keys.contains(x) {
                        *x = keys[0].clone();
                    }
                });
            }
            // The bookkeeping above reads the store, which is not part of the history.
            let plen = *g.r.pick(&[0usize, 0, 1, 5, 40]);
            let prefix = g.r.bytes(plen);
            let res = step(&hop, &mut h, &r, &keys, &prefix);
            if matches!(res, Res::Panic(_)) {
                break;
            }
        }
        out.line(&h.s());
    }
    println!("{}", out.done());
}

/// Boundary cases of sizes and counts, one short history each.
pub fn sizes(a: &Args) {
    let path = a.str("--out", "/dev/null");
    let deep = a.num("--deep", 0) == 1;
    watchdog(path.clone(), Duration::from_secs(20));
    let mut out = Out::new(&path);
    let key = b"a".to_vec();
    let u = jbs(&[&key]);
    let mut id = 0;
    let mut go = |out: &mut Out, rs: Vec<Req>| {
        let hop = Hop::new();
        let mut h = History { head: format!("\"id\":{},\"u\":{}", id, u), ev: vec![] };
        for r in &rs {
            if let Res::Panic(_) = step(&hop, &mut h, r, &[key.clone()], &[]) {
                break;
            }
        }
        id += 1;
        out.line(&h.s());
    };
    let get = || Req::new(11, None, vec![key.clone()]);
    // Widths of the response format: item and key lengths, item counts.
    let mut lens = vec![127usize, 128, 254, 255, 256, 257];
    if deep {
        lens.extend(&[4096, 65535, 65536]);
    }
    for l in lens {
        for t in &[0u8, 4, 5, 7] {
            go(&mut out, vec![
                Req::new(10, Some(*t), vec![key.clone(), vec![b'x'; l]]),
                get(),
                Req::new(21, None, vec![key.clone()]),
                Req::new(20, None, vec![key.clone(), vec![b'y'; 2]]),
            ]);
        }
        go(&mut out, vec![
            Req::new(10, Some(6), vec![key.clone(), b"k".to_vec(), vec![b'x'; l]]),
            get(),
        ]);
        go(&mut out, vec![
            Req::new(10, Some(6), vec![key.clone(), vec![b'k'; l], b"v".to_vec()]),
            get(),
            Req::new(22, None, vec![key.clone()]),
        ]);
    }
    // Names the engine keeps for itself, and no name at all.
    for c in COMMANDS.iter().filter(|c| **c != 100 && **c != 101) {
        for k in &[&b"__hop__:stats"[..], b"__hop__:", b""] {
            let mut a = vec![k.to_vec()];
            match c {
                2 | 3 => a.push(i8b(1)),
                10 | 20 => a.push(b"v".to_vec()),
                15 => a.push(key.clone()),
                _ => {}
            }
            let kind = if *c == 14 { Some(0) } else { None };
            go(&mut out, vec![Req::new(*c, kind, a.clone())]);
            if *c == 15 {
                a.reverse();
                go(&mut out, vec![Req::new(10, None, vec![key.clone(), b"v".to_vec()]), Req::new(*c, kind, a)]);
            }
        }
    }
    let set_long = vec![
        Req::new(10, Some(7), vec![key.clone(), vec![b'x'; 65536]]),
        get(),
    ];
    go(&mut out, set_long);
    // 254 elements a request, so an element count above one and two bytes.
    for total in &[255usize, 256, 300] {
        let mut rs = vec![];
        let mut left = *total;
        while left > 0 {
            let n = left.min(200);
            let mut args = vec![key.clone()];
            args.extend((0..n).map(|i| vec![1 + (i % 250) as u8]));
            rs.push(Req::new(20, Some(5), args));
            left -= n;
        }
        rs.push(Req::new(21, None, vec![key.clone()]));
        go(&mut out, rs);
    }
    for n in &[1usize, 2, 127, 128, 253, 254] {
        for t in &[0u8, 4, 5, 7, 6] {
            let mut args = vec![key.clone()];
            args.extend((0..*n).map(|i| vec![b'a' + (i / 100) as u8, b'0' + (i % 100) as u8]));
            go(&mut out, vec![
                Req::new(10, Some(*t), args.clone()),
                get(),
                Req::new(21, None, vec![key.clone()]),
                Req::new(20, Some(*t), args.clone()),
                Req::new(100, None, args.clone()),
                Req::new(22, None, vec![key.clone()]),
            ]);
        }
    }
    println!("{}", out.done());
}

/// A list grown past 65535 elements, which the response format can't count.
pub fn huge(_: &Args) {
    let hop = Hop::new();
    let mut args = vec![b"a".to_vec()];
    args.extend((0..254).map(|_| vec![1]));
    let r = Req::new(20, Some(5), args);
    for i in 0..260u32 {
        let before = guarded(|| {
            let st = hop.state();
            let r = st.key_ref(b"a");
            r.map(|r| r.value().as_list_ref().map(|l| l.len()).unwrap_or(0)).unwrap_or(0)
        });
        match run(&hop, &r, &[]) {
            Res::Ok(_) => {}
            other => {
                println!("{{\"at\":{},\"len\":{},\"o\":{}}}", i, before.unwrap_or(0), other.s());
                return;
            }
        }
    }
    println!("{{\"at\":260,\"len\":{},\"o\":{{\"k\":0}}}}", 260 * 254);
}

pub fn load(hop: &Hop, entries: &J) -> Vec<(Vec<u8>, Val)> {
    let mut v = vec![];
    for e in entries.arr() {
        let e = e.arr();
        let val = Val { t: e[1].num() as u8, v: e[2].clone() }.canonical();
        hop.state().insert(e[0].to_bytes(), val.value());
        v.push((e[0].to_bytes(), val));
    }
    v
}

pub fn entries(e: &J) -> Vec<(Vec<u8>, Val)> {
    let mut v: Vec<_> = e
        .arr()
        .iter()
        .map(|e| {
            let e = e.arr();
            (e[0].to_bytes(), Val { t: e[1].num() as u8, v: e[2].clone() }.canonical())
        })
        .collect();
    v.sort();
    v
}

/// Each line is [pre, [c, k, args], [0, t, v] or [1, e], post], from TLC.
pub fn replay(a: &Args) {
    let input = BufReader::new(std::fs::File::open(a.str("--in", "")).unwrap());
    let keys: Vec<Vec<u8>> = J::parse(&a.str("--keys", "[[97],[98]]")).arr().iter().map(J::to_bytes).collect();
    let (mut n, mut bad) = (0u64, 0u64);
    for line in input.lines() {
        let line = line.unwrap();
        let j = J::parse(&line);
        let j = j.arr();
        n += 1;
        let hop = Hop::new();
        load(&hop, &j[0]);
        let r = j[1].arr();
        let req = Req::new(
            r[0].num() as u8,
            if r[1].num() < 0 { None } else { Some(r[1].num() as u8) },
            r[2].arr().iter().map(J::to_bytes).collect(),
        );
        let o = j[2].arr();
        let want = if o[0].num() == 0 {
            Res::Ok(Val { t: o[1].num() as u8, v: o[2].clone() }.canonical())
        } else {
            Res::Err(o[1].num() as u8)
        };
        let got = run(&hop, &req, &[9, 9]);
        let post = entries(&j[3]);
        let mut seen = keys.clone();
        seen.extend(named(&req));
        seen.sort();
        seen.dedup();
        let mut now = guarded(|| snapshot(&hop, &seen)).unwrap_or_default();
        now.sort();
        // The keys of a map come in any order.
        let (got, want) = if req.c == 22 { (got.unordered(), want.unordered()) } else { (got, want) };
        if got != want || now != post {
            bad += 1;
            if bad <= 20 {
                println!(
                    "MISMATCH {{\"line\":{},{},\"pre\":{},\"want\":{},\"got\":{},\"post\":{},\"now\":{}}}",
                    n,
                    req.s(),
                    snap_s(&entries(&j[0])),
                    want.s(),
                    got.s(),
                    snap_s(&post),
                    snap_s(&now)
                );
            }
        }
    }
    println!("REPLAYED {} {}", n, bad);
}
