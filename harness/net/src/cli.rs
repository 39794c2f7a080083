//! Command lines: what they are parsed as, and what running them prints.
use crate::{
    client::{call, finish, runtime, Call, Got, Told},
    srv::{jobs, seed_of, Server},
    util::*,
    val::Val,
};
use hop::{
    backend::{Backend, MemoryBackend, ServerBackend},
    Client,
};
use hop_cli::{parse, process, ParseError, ProcessError};
use hop_engine::command::{request::RequestBuilderError, CommandId};
use std::{
    convert::TryFrom,
    io::{Read, Write},
    process::{Command, Stdio},
    time::Duration,
};
use tokio::runtime::Runtime;

const NAMES: [&str; 16] = [
    "append", "decrement:by", "decrement", "delete", "echo", "exists", "get", "increment:by", "increment", "is", "keys",
    "length", "rename", "set", "stats", "type",
];
const TYPES: [&str; 11] =
    ["boolean", "bool", "bytes", "float", "integer", "int", "list", "map", "set", "string", "str"];
const ODD_NAMES: [&str; 30] = [
    "", "incremen", "increments", "INCREMENT", "Get", "get:", "get:int:", ":int", ":", "::", "get::int", "get:int:int",
    "increment:by:", "by", "increment:By", "increment:by:by", "increment:int:by", "decrement:by:float:int", "set:boo",
    "set:strings", "set:Int", "get\t", "\tget", "\u{a0}get", "get\u{20ac}", "stats:", "is:is", "int", "get:int ", "echo\u{0}",
];
const KEYS: [&str; 9] = ["a", "b", "c", "key", "k:1", "k\u{20ac}", "with\ttab", "-", "0"];
const INTS: [&str; 26] = [
    "0", "1", "-1", "+1", "007", "-0", "42", "255", "65536", "2147483647", "2147483648", "-2147483649", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "92233720368547758070", "99999999999999999999999",
    "+", "-", "1.0", "1e3", "0x10", "1_000", "--1", "\u{661}",
];
const FLOATS: [&str; 22] = [
    "0", "1.5", "-2.25", "1e10", "1e400", "-1e-400", "inf", "-inf", "NaN", "nan", "infinity", ".5", "5.", ".", "1e", "+3",
    "-0", "0.1", "1,5", "3.4028235677973366e38", "123456789.123456789", "e5",
];
const WORDS: [&str; 18] = [
    "x", "foo", "hello", "true", "false", "True", "TRUE", "1", "0", "yes", "\u{e9}t\u{e9}", "\u{1f600}", "a=b", "a\tb", "\"q\"",
    "\u{7f}", "\u{0}", "longer-than-the-other-words-are",
];

fn reading(s: &str) -> String {
    match s.parse::<f64>() {
        Ok(f) => jb(&f.to_be_bytes()),
        Err(_) => "[]".to_owned(),
    }
}

fn readings(line: &str) -> String {
    let r: Vec<String> = line.split(' ').skip(1).map(reading).collect();
    format!("[{}]", r.join(","))
}

fn refused(e: &ParseError) -> String {
    let said = jb(e.to_string().as_bytes());
    let (k, x, t) = match e {
        ParseError::ArgumentInvalid { argument, key_type } => (1, argument.as_str(), *key_type as i64),
        ParseError::BuildingRequest { source } => (
            match source {
                RequestBuilderError::ArgumentEmpty => 2,
                RequestBuilderError::TooManyArguments => 3,
                RequestBuilderError::ValueEmpty => 4,
            },
            "",
            -1,
        ),
        ParseError::InvalidCommandType { provided_name } => (5, provided_name.as_str(), -1),
        ParseError::KeyUnspecified => (6, "", -1),
        ParseError::MapIncomplete { key } => (7, key.as_str(), -1),
        ParseError::NoCommandProvided => (8, "", -1),
    };
    format!("{{\"k\":1,\"e\":{},\"x\":{},\"t\":{},\"d\":{}}}", k, jb(x.as_bytes()), t, said)
}

fn parsed(line: &str) -> String {
    let r = guarded(|| match parse(line) {
        Ok(q) => {
            let a: Vec<Vec<u8>> = q.args(..).map(|a| a.map(<[u8]>::to_vec).collect()).unwrap_or_default();
            format!(
                "{{\"k\":0,\"c\":{},\"t\":{},\"a\":{},\"n\":{},\"key\":{},\"w\":{}}}",
                q.command_id() as u8,
                q.key_type().map_or(-1, |t| t as i64),
                jbs(&a),
                q.arg_count(),
                q.key().map_or("[]".to_owned(), |k| jb(k)),
                jb(q.as_bytes())
            )
        }
        Err(e) => refused(&e),
    });
    match r {
        Ok(s) => s,
        Err(m) => format!("{{\"k\":4,\"m\":{}}}", esc(&m)),
    }
}

struct Author {
    r: Rng,
    /// Whether lines are to be what there are answers to.
    sane: bool,
    last: bool,
}

impl Author {
    fn word(&mut self, t: &str) -> String {
        let r = &mut self.r;
        if r.pct(4) && !self.sane {
            return (*r.pick(&["", "\u{feff}", "\n", "a\nb", "\r"])).to_owned();
        }
        if r.pct(2) {
            let n = *r.pick(&[200usize, 255, 256, 300, 1000, 2048, 4097, 9000]);
            return "w".repeat(n);
        }
        let pool: &[&str] = match t {
            "int" | "integer" if r.pct(85) => &INTS,
            "float" if r.pct(85) => &FLOATS,
            "bool" | "boolean" if r.pct(85) => &["true", "false", "true", "false", "True", "0", "t"],
            _ if r.pct(15) => &INTS,
            _ if r.pct(10) => &FLOATS,
            _ => &WORDS,
        };
        let n = match t {
            // The numbers that there are, mostly.
            "int" | "integer" | "float" if self.sane || r.pct(60) => pool.len() / 2,
            "bool" | "boolean" if self.sane || r.pct(60) => 4.min(pool.len()),
            _ => pool.len(),
        };
        (*r.pick(&pool[..n])).to_owned()
    }
    fn key(&mut self) -> String {
        let n = if self.r.pct(80) { 3 } else { KEYS.len() };
        (*self.r.pick(&KEYS[..n])).to_owned()
    }
    fn line(&mut self) -> String {
        let last = self.last;
        let r = &mut self.r;
        // Those that are not there come last: they end it all.
        let there: Vec<&str> = NAMES
            .iter()
            .copied()
            .filter(|n| last || !["append", "set", "length", "increment:by", "decrement:by"].contains(n))
            .collect();
        let name = if !self.sane && r.pct(10) { *r.pick(&ODD_NAMES) } else { *r.pick(&there) };
        let t = if r.pct(50) { *r.pick(&TYPES) } else { "" };
        // A few take only one of them, or none.
        let t = match name {
            "delete" | "exists" | "rename" | "stats" | "type" | "keys" if r.pct(75) => "",
            "increment" | "decrement" if r.pct(50) => *r.pick(&["int", "integer", "float"]),
            "is" if t.is_empty() && r.pct(85) => *r.pick(&TYPES),
            _ => t,
        };
        let mut l = name.to_owned();
        if !t.is_empty() {
            l.push(':');
            l.push_str(t);
        }
        let keys = match name {
            "echo" | "stats" => 0,
            "rename" => 2,
            "exists" | "is" => r.below(4),
            _ => 1,
        };
        let keys = if r.pct(4) { r.below(3) } else { keys };
        let more = match name {
            "append" | "set" | "echo" | "increment:by" | "decrement:by" => r.below(4) + (name != "echo") as usize,
            "get" | "delete" | "type" | "increment" | "decrement" | "keys" | "rename" if r.pct(8) => r.below(3),
            "stats" if r.pct(10) => 1,
            _ => 0,
        };
        let more = if more > 0 && r.pct(2) { *r.pick(&[126usize, 127, 128, 253, 254, 255, 256, 300]) } else { more };
        let keys = if keys > 0 && more == 0 && r.pct(1) { *r.pick(&[254usize, 255, 256]) } else { keys };
        for _ in 0..keys {
            let k = self.key();
            l.push(' ');
            l.push_str(&k);
        }
        let most = more > 100;
        for i in 0..more {
            l.push(' ');
            let w = if most {
                match t {
                    "int" | "integer" | "float" => i.to_string(),
                    "bool" | "boolean" => "true".to_owned(),
                    _ => format!("w{}", i % 200),
                }
            } else {
                self.word(t)
            };
            l.push_str(&w);
        }
        if !self.sane {
            let r = &mut self.r;
            match r.below(60) {
                0 => l.push(' '),
                1 => l.insert(0, ' '),
                2 => l = l.replacen(' ', "  ", 1),
                3 => l = l.replacen(' ', "\t", 1),
                4 => l.push('\n'),
                _ => {}
            }
        }
        l
    }
    fn blob(&mut self) -> Vec<u8> {
        let mut n = *self.r.pick(&[1usize, 1, 2, 3, 5, 8]);
        if self.r.pct(2) {
            n = *self.r.pick(&[200usize, 1000, 1025, 3000, 4097, 9000]);
        }
        match self.r.below(5) {
            _ if n > 300 => {
                let mut b = self.r.pick(&["text ", "\u{e9}\u{1f600}", "ab\u{20ac}"]).repeat(n / 5).into_bytes();
                if self.r.pct(20) {
                    b.push(b'\n');
                }
                b
            }
            0 => self.r.bytes(n),
            1 => vec![*self.r.pick(b"\n =\0\xff\xc3"); n],
            2 => {
                // Nearly text.
                let mut b = "\u{e9}\u{20ac}\u{1f600}x".as_bytes().to_vec();
                let i = self.r.below(b.len());
                if self.r.pct(50) {
                    b.truncate(i.max(1));
                } else {
                    b.remove(i);
                }
                b
            }
            _ => self.r.pick(&WORDS).as_bytes().to_vec(),
        }
    }
    /// Something for the lines to find.
    fn call(&mut self) -> Call {
        let key = self.key().into_bytes();
        if self.r.pct(12) {
            return Call { m: 12, t: None, a: vec![key], v: None, way: 1 };
        }
        let t = self.r.below(8) as u8;
        let n = if self.r.pct(5) { *self.r.pick(&[30usize, 65, 101, 129, 200]) } else { 1 + self.r.below(4) };
        let most = n > 8;
        let v = match t {
            0 => J::bytes(&self.blob()),
            1 => J::bytes(&[self.r.below(2) as u8]),
            2 => {
                let f = *self.r.pick(&[0.0, -0.0, 1.0, 1.5, -2.25, 1e300, 5e-324, 0.1, 1e21, 1e-7, f64::INFINITY, f64::NAN, 123_456.789]);
                J::bytes(&f64::to_be_bytes(if f.is_nan() { f64::from_bits(0x7ff8_0000_0000_0000) } else { f }))
            }
            3 => {
                let some = [0, 1, -1, 9, 10, -10, 99, 100, 255, 1 << 31, 1 << 32, i64::max_value(), i64::min_value(), i64::max_value() - 1];
                let x = if self.r.pct(40) { self.r.next() as i64 >> self.r.below(60) } else { *self.r.pick(&some) };
                J::bytes(&x.to_be_bytes())
            }
            4 if self.r.pct(5) => J::bytes("text \u{e9}\u{1f600}".repeat(*self.r.pick(&[30usize, 100, 400, 900])).as_bytes()),
            4 => J::bytes(self.r.pick(&WORDS).as_bytes()),
            // Pairs and members that are all different.
            6 if most => {
                let wide = self.r.pct(40);
                let fill = "v".repeat(if wide { 60 } else { 0 });
                let other = |a: &mut Self| if wide { fill.clone().into_bytes() } else { a.blob() };
                J::A((0..n).map(|i| J::A(vec![J::bytes(format!("{}key", i).as_bytes()), J::bytes(&other(self))])).collect())
            }
            5 | 7 if most => {
                let fill = "e".repeat(if self.r.pct(40) { 50 } else { 0 });
                J::A((0..n).map(|i| J::bytes(format!("{}-{}{}", i, self.r.below(1000), fill).as_bytes())).collect())
            }
            6 => J::A(
                (0..n)
                    .map(|_| {
                        let mut k = self.blob();
                        k.truncate(255);
                        J::A(vec![J::bytes(&k), J::bytes(&self.blob())])
                    })
                    .collect(),
            ),
            _ => J::A((0..n).map(|_| J::bytes(&self.blob())).collect()),
        };
        let v = Val { t, v };
        // Without what comes twice.
        let v = Val::of(&v.value());
        Call { m: 10, t: None, a: vec![key], v: Some(v), way: 1 }
    }
}

fn line_event(l: &str, n: &str, o: &str) -> String {
    format!("{{\"op\":1,\"l\":{},\"f\":{},\"n\":{},\"o\":{}}}", jb(l.as_bytes()), readings(l), n, o)
}

fn printed(text: &str) -> String {
    let plain = text.len() < 100 && text.chars().all(|c| (' '..='~').contains(&c) && c != '"' && c != '\\');
    format!(
        "{{\"k\":0,\"b\":{},\"s\":\"{}\",\"f\":{}}}",
        jb(text.as_bytes()),
        if plain { text } else { "" },
        reading(text)
    )
}

async fn perform<B>(c: &Client<B>, l: &str) -> String
where
    B: Backend + Send + Sync + 'static,
    B::Error: Told + std::error::Error,
{
    match process(c, l).await {
        Ok(text) => printed(&text),
        Err(e) => {
            let _ = e.to_string();
            match &e {
                ProcessError::ParsingInput { source } => refused(source),
                ProcessError::Backend { source } => match source.told() {
                    Got::Store(e) => format!("{{\"k\":2,\"e\":{}}}", e),
                    g => format!("{{\"k\":3,\"g\":{}}}", g.s()),
                },
                ProcessError::WritingOutput { .. } => "{\"k\":3,\"g\":{\"k\":3}}".to_owned(),
            }
        }
    }
}

/// L01: what lines are parsed as.
pub fn lines(a: &Args) {
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 9);
    jobs(a, n, 8, move |i| {
        let mut p = Author { r: Rng::new(base.wrapping_add(i as u64)), sane: i % 3 == 0, last: true };
        let evs: Vec<String> = (0..12)
            .map(|_| {
                let l = p.line();
                format!("{{\"op\":0,\"l\":{},\"f\":{},\"o\":{}}}", jb(l.as_bytes()), readings(&l), parsed(&l))
            })
            .collect();
        Some(format!("{{\"id\":{},\"srv\":0,\"ev\":[{}]}}", i, evs.join(",")))
    });
}

/// L01: what the lines of a file are parsed as.
pub fn spelled(a: &Args) {
    let all: Vec<String> = std::fs::read_to_string(a.str("--in", ""))
        .expect("lines")
        .lines()
        .map(|l| String::from_utf8(J::parse(l).arr()[0].to_bytes()).expect("text"))
        .collect();
    let per = 50;
    let n = (all.len() + per - 1) / per;
    jobs(a, n, 8, move |i| {
        let evs: Vec<String> = all[i * per..all.len().min((i + 1) * per)]
            .iter()
            .map(|l| format!("{{\"op\":0,\"l\":{},\"f\":{},\"o\":{}}}", jb(l.as_bytes()), readings(l), parsed(l)))
            .collect();
        Some(format!("{{\"id\":{},\"srv\":0,\"ev\":[{}]}}", i, evs.join(",")))
    });
}

fn named(s: &str) -> i64 {
    let (x, y) = (s.parse::<CommandId>(), CommandId::try_from(s));
    match (x, y) {
        (Ok(x), Ok(y)) if x == y => x as i64,
        (Err(_), Err(_)) => -1,
        _ => -2,
    }
}

/// L01: what names name, and how what every byte stands for is named.
pub fn names(a: &Args) {
    let seed = seed_of(a, 0);
    jobs(a, 256, 8, move |i| {
        let mut r = Rng::new(seed ^ (i as u64) << 8);
        let mut evs = vec![match CommandId::try_from(i as u8) {
            Ok(c) => format!(
                "{{\"op\":3,\"b\":{},\"o\":{{\"k\":0,\"c\":{},\"n\":{},\"d\":{},\"f\":{}}}}}",
                i,
                c as u8,
                jb(c.name().as_bytes()),
                jb(c.to_string().as_bytes()),
                named(c.name())
            ),
            Err(_) => format!("{{\"op\":3,\"b\":{},\"o\":{{\"k\":1}}}}", i),
        }];
        for _ in 0..40 {
            let mut s: Vec<char> = match r.below(4) {
                0 => r.pick(&ODD_NAMES).chars().collect(),
                1 => r.pick(&TYPES).chars().collect(),
                _ => r.pick(&NAMES).chars().collect(),
            };
            for _ in 0..r.below(3) {
                let at = r.below(s.len() + 1);
                match r.below(5) {
                    0 if at < s.len() => drop(s.remove(at)),
                    1 if at < s.len() => s[at] = (s[at] as u8 ^ 32) as char,
                    2 => s.insert(at, *r.pick(&[' ', ':', 'y', 's', '\u{0}', '\u{e9}'])),
                    3 => s.truncate(at),
                    _ => s.extend(r.pick(&NAMES).chars()),
                }
            }
            let s: String = s.into_iter().collect();
            evs.push(format!("{{\"op\":4,\"l\":{},\"o\":{{\"k\":0,\"c\":{}}}}}", jb(s.as_bytes()), named(&s)));
        }
        Some(format!("{{\"id\":{},\"srv\":0,\"ev\":[{}]}}", i, evs.join(",")))
    });
}

/// One program: calls that fill the store, and lines.
fn program<B>(rt: &mut Runtime, p: &mut Author, c: &Client<B>, len: usize) -> Vec<String>
where
    B: Backend + Send + Sync + 'static,
    B::Error: Told + std::error::Error,
{
    let mut evs = vec![];
    let wild = p.r.pct(10);
    let mut look: Option<String> = None;
    for i in 0..len {
        if look.is_none() && p.r.pct(35) {
            let e = p.call();
            // To be looked at, if there is a lot of it.
            let much = e.v.as_ref().map_or(false, |v| v.v.s().len() > 600);
            look = match String::from_utf8(e.a[0].clone()) {
                Ok(k) if much && p.r.pct(70) => {
                    let map = e.v.as_ref().map_or(false, |v| v.t == 6);
                    Some(format!("{} {}", if map && p.r.pct(30) { "keys" } else { "get" }, k))
                }
                _ => None,
            };
            let o = finish(rt, call(c, &e));
            evs.push(format!("{{\"op\":2,{},\"o\":{}}}", e.s(), o.s()));
            continue;
        }
        p.last = i == len - 1 && wild;
        let l = look.take().unwrap_or_else(|| p.line());
        let stats = Call { m: 101, t: None, a: vec![], v: None, way: 1 };
        let n = if l.starts_with("stats") {
            match rt.block_on(async { call(c, &stats).await }) {
                Got::Counters(x) => {
                    let x: Vec<Vec<u8>> = x.iter().map(|x| x.to_be_bytes().to_vec()).collect();
                    jbs(&x)
                }
                g => g.s(),
            }
        } else {
            "[]".to_owned()
        };
        let r = guarded(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(8), perform(c, &l)).await }));
        let o = match r {
            Ok(Ok(o)) => o,
            Ok(Err(_)) => "{\"k\":5}".to_owned(),
            Err(m) => format!("{{\"k\":4,\"m\":{}}}", esc(&m)),
        };
        evs.push(line_event(&l, &n, &o));
    }
    evs
}

/// L01: lines run on a client of a store in memory and of a server.
pub fn sessions(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 100) as usize;
    let len = a.num("--len", 25) as usize;
    let base = seed_of(a, 10);
    jobs(a, n, 8, move |i| {
        let r = Rng::new(base.wrapping_add(i as u64));
        let mut p = Author { r, sane: true, last: false };
        p.sane = p.r.pct(80);
        let srv = i % 6 == 5;
        let mut rt = runtime();
        let evs = if srv {
            let s = Server::start(&bin, None);
            let c: Client<ServerBackend> = match guarded(|| rt.block_on(Client::connect(s.addr))) {
                Ok(Ok(c)) => c,
                _ => return Some(format!("{{\"id\":{},\"srv\":1,\"ev\":[{{\"op\":9}}]}}", i)),
            };
            program(&mut rt, &mut p, &c, len)
        } else {
            let c: Client<MemoryBackend> = Client::memory();
            program(&mut rt, &mut p, &c, len)
        };
        Some(format!("{{\"id\":{},\"srv\":{},\"ev\":[{}]}}", i, srv as u8, evs.join(",")))
    });
}

/// L01: lines typed into the tool.
pub fn typed(a: &Args) {
    let bin = a.str("--cli", "");
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 11);
    jobs(a, n, 8, move |i| {
        let mut p = Author { r: Rng::new(base.wrapping_add(i as u64)), sane: true, last: false };
        let len = 3 + p.r.below(12);
        let mut ls = vec![];
        while ls.len() < len {
            let l = p.line();
            // Text in which a prompt can't be mistaken, and that the tool goes on after.
            let fine = match guarded(|| parse(&l).is_ok()) {
                Ok(b) => b,
                Err(_) => true,
            };
            if fine && !l.starts_with("stats") && l.trim_end() == l && !l.contains('\n') {
                ls.push(l);
            }
        }
        if p.r.pct(30) {
            ls.push((*p.r.pick(&["", "nonsense", "get:", "set:int a b", "rename a"])).to_owned());
        }
        let mut child = Command::new(&bin)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start the tool");
        let mut text = String::new();
        for l in &ls {
            text.push_str(l);
            text.push_str(*p.r.pick(&["\n", "\n", "\n", "\r\n", " \n"]));
        }
        let mut stdin = child.stdin.take().unwrap();
        let feeder = std::thread::spawn(move || {
            let _ = stdin.write_all(text.as_bytes());
        });
        let mut out = child.stdout.take().unwrap();
        let reader = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = out.read_to_end(&mut b);
            b
        });
        let since = std::time::Instant::now();
        let mut hung = false;
        while child.try_wait().expect("wait").is_none() {
            if since.elapsed() > Duration::from_secs(10) {
                hung = true;
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        let _ = feeder.join();
        let got = reader.join().unwrap_or_default();
        let got = String::from_utf8_lossy(&got).into_owned();
        // What is between the prompts.
        let mut evs = vec![];
        let rest = got.strip_prefix("> ").unwrap_or(&got).to_owned();
        let mut parts: Vec<String> = rest.split("\n> ").map(str::to_owned).collect();
        let tail = parts.pop().unwrap_or_default();
        for (k, l) in ls.iter().enumerate() {
            let o = match parts.get(k) {
                Some(t) => printed(t),
                None if hung => "{\"k\":5}".to_owned(),
                // The tool ended at it, having printed this.
                None => format!("{{\"k\":6,\"b\":{}}}", jb(tail.as_bytes())),
            };
            let over = parts.get(k).is_none();
            evs.push(line_event(l, "[]", &o));
            if over {
                break;
            }
        }
        Some(format!("{{\"id\":{},\"srv\":0,\"ev\":[{}]}}", i, evs.join(",")))
    });
}
