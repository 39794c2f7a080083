//! Programs against clients: in memory, connected to a real server, and
//! connected to one that answers what it is told to.
use crate::{
    ops::{f8b, i8b, Gen},
    srv::{jobs, seed_of, Server},
    util::*,
    val::{derr, Req, Val},
};
use hop::{
    backend::{memory, server, Backend, MemoryBackend, ServerBackend},
    request::CommandConfigurationError,
    Client, KeyType, Value,
};
use hop_engine::command::request::RequestBuilderError;
use std::{
    collections::BTreeMap,
    convert::TryFrom,
    future::Future,
    io::{ErrorKind, Read, Write},
    net::{TcpListener, TcpStream},
    os::unix::io::AsRawFd,
    time::{Duration, Instant},
};
use tokio::runtime::Runtime;

/// A call on a client: a method (by its command), a type in its name, keys, and
/// a value.
#[derive(Clone, Debug)]
pub struct Call {
    pub m: u8,
    pub t: Option<u8>,
    pub a: Vec<Vec<u8>>,
    /// Maps and sets as given: pairs and members may be there twice.
    pub v: Option<Val>,
    /// Which of the ways there are to make the call.
    pub way: usize,
}

impl Call {
    pub fn s(&self) -> String {
        let none = Val { t: 255, v: J::A(vec![]) };
        let v = self.v.as_ref().unwrap_or(&none);
        format!(
            "\"m\":{},\"t\":{},\"a\":{},\"v\":{{\"t\":{},\"v\":{}}}",
            self.m,
            self.t.map(i64::from).unwrap_or(-1),
            jbs(&self.a),
            if v.t == 255 { -1 } else { i64::from(v.t) },
            v.v.s()
        )
    }
}

#[derive(Clone, Debug)]
pub enum Got {
    Value(Val),
    Counters([i64; 4]),
    /// The store's error.
    Store(u8),
    /// The call was refused: it couldn't be made.
    Refused(u8),
    /// The connection or the server failed.
    Failed(u8),
    Panic(String),
    Hang,
}

impl Got {
    pub fn s(&self) -> String {
        match self {
            Got::Value(v) => format!("{{\"k\":0,\"v\":{}}}", v.s()),
            Got::Counters(c) => {
                let c: Vec<Vec<u8>> = c.iter().map(|x| i8b(*x)).collect();
                format!("{{\"k\":0,\"n\":{}}}", jbs(&c))
            }
            Got::Store(e) => format!("{{\"k\":1,\"e\":{}}}", e),
            Got::Refused(e) => format!("{{\"k\":2,\"e\":{}}}", e),
            Got::Failed(e) => format!("{{\"k\":3,\"e\":{}}}", e),
            Got::Panic(m) => format!("{{\"k\":4,\"e\":0,\"m\":{}}}", esc(m)),
            Got::Hang => "{\"k\":5,\"e\":0}".to_owned(),
        }
    }
}

pub trait Told {
    fn told(&self) -> Got;
}

fn building(e: &RequestBuilderError) -> Got {
    Got::Refused(match e {
        RequestBuilderError::ArgumentEmpty => 1,
        RequestBuilderError::TooManyArguments => 2,
        RequestBuilderError::ValueEmpty => 3,
    })
}

impl Told for memory::Error {
    fn told(&self) -> Got {
        // The text and the cause of an error are there without a panic.
        let _ = (self.to_string(), std::error::Error::source(self).map(|s| s.to_string()));
        match self {
            memory::Error::BuildingRequest { source } => building(source),
            memory::Error::KeyTypeUnsupported { .. } => Got::Refused(22),
            memory::Error::RunningCommand { source } => Got::Store(derr(*source)),
            memory::Error::Dispatching { source } => Got::Store(derr(*source)),
            memory::Error::BadRequest { .. } => Got::Failed(6),
            memory::Error::KeyTypeInvalid { .. } => Got::Failed(7),
        }
    }
}

impl Told for server::Error {
    fn told(&self) -> Got {
        let _ = (self.to_string(), std::error::Error::source(self).map(|s| s.to_string()));
        match self {
            server::Error::BuildingRequest { source } => building(source),
            server::Error::KeyTypeUnsupported { .. } => Got::Refused(22),
            server::Error::Dispatching { reason } => Got::Store(derr(*reason)),
            server::Error::Connecting { .. } => Got::Failed(1),
            server::Error::ConnectionClosed => Got::Failed(2),
            server::Error::BadResponse => Got::Failed(3),
            server::Error::ReadingMessage { .. } => Got::Failed(4),
            server::Error::WritingMessage { .. } => Got::Failed(5),
            server::Error::BadRequest { .. } => Got::Failed(6),
            server::Error::KeyTypeInvalid { .. } => Got::Failed(7),
        }
    }
}

fn val<E: Told>(r: Result<Value, E>) -> Got {
    match r {
        Ok(v) => Got::Value(Val::of(&v)),
        Err(e) => e.told(),
    }
}
fn bytes<E: Told>(r: Result<Vec<u8>, E>) -> Got {
    val(r.map(Value::Bytes))
}
fn list<E: Told>(r: Result<Vec<Vec<u8>>, E>) -> Got {
    val(r.map(Value::List))
}
fn boolean<E: Told>(r: Result<bool, E>) -> Got {
    val(r.map(Value::Boolean))
}
fn int<E: Told>(r: Result<i64, E>) -> Got {
    val(r.map(Value::Integer))
}
fn kind<E: Told>(r: Result<KeyType, E>) -> Got {
    int(r.map(|k| k as u8 as i64))
}
fn stats<E: Told>(r: Result<hop::model::StatsData, E>) -> Got {
    match r {
        Ok(s) => Got::Counters([
            s.commands_successful(),
            s.commands_errored(),
            s.sessions_started(),
            s.sessions_ended(),
        ]),
        Err(e) => e.told(),
    }
}
fn config(e: CommandConfigurationError) -> Got {
    let _ = e.to_string();
    Got::Refused(match e {
        CommandConfigurationError::NoKeys => 20,
        CommandConfigurationError::TooManyKeys => 21,
    })
}

fn ktype(t: u8) -> KeyType {
    KeyType::try_from(t).expect("a type")
}
fn text(v: &Val) -> String {
    String::from_utf8(v.v.to_bytes()).expect("text")
}
fn items(v: &Val) -> Vec<Vec<u8>> {
    v.v.arr().iter().map(J::to_bytes).collect()
}
fn pairs(v: &Val) -> Vec<(Vec<u8>, Vec<u8>)> {
    v.v.arr().iter().map(|p| (p.arr()[0].to_bytes(), p.arr()[1].to_bytes())).collect()
}
fn num(v: &Val) -> [u8; 8] {
    let mut a = [0; 8];
    a.copy_from_slice(&v.v.to_bytes());
    a
}

/// Makes the call through the methods of a client.
pub async fn call<B>(c: &Client<B>, e: &Call) -> Got
where
    B: Backend + Send + Sync + 'static,
    B::Error: Told,
{
    let k = || e.a[0].clone();
    let other = c.clone();
    let c = if e.way % 3 == 0 { &other } else { c };
    let alias = e.way % 2 == 0;
    match (e.m, e.t) {
        (0, None) => val(c.increment(k()).await),
        (1, None) => val(c.decrement(k()).await),
        (2, _) | (3, _) => {
            let v = e.v.as_ref().expect("an amount");
            if v.t == 2 {
                let x = f64::from_be_bytes(num(v));
                let skip = x == 1.0 && alias;
                let r = if e.m == 2 {
                    let q = c.increment(k()).float();
                    if skip { q.await } else { q.by(x).await }
                } else {
                    let q = c.decrement(k()).float();
                    if skip { q.await } else { q.by(x).await }
                };
                val(r.map(Value::Float))
            } else {
                let x = i64::from_be_bytes(num(v));
                let skip = x == 1 && alias;
                int(if e.m == 2 {
                    let q = c.increment(k()).int();
                    if skip { q.await } else { q.by(x).await }
                } else {
                    let q = c.decrement(k()).int();
                    if skip { q.await } else { q.by(x).await }
                })
            }
        }
        (10, _) => {
            let v = e.v.as_ref().expect("a value");
            let s = c.set(k());
            if e.way % 5 == 0 {
                return val(s.value(v.value()).await);
            }
            match v.t {
                0 => bytes(s.bytes(v.v.to_bytes()).await),
                1 if alias => boolean(s.boolean(v.v.to_bytes()[0] != 0).await),
                1 => boolean(s.bool(v.v.to_bytes()[0] != 0).await),
                2 => val(s.float(f64::from_be_bytes(num(v))).await.map(Value::Float)),
                3 if alias => int(s.integer(i64::from_be_bytes(num(v))).await),
                3 => int(s.int(i64::from_be_bytes(num(v))).await),
                4 if alias => val(s.string(text(v)).await.map(Value::String)),
                4 => val(s.str(text(v)).await.map(Value::String)),
                5 => list(s.list(items(v)).await),
                6 => val(s.map(pairs(v)).await.map(|m| Value::Map(m.into_iter().collect()))),
                _ => match s.set(items(v)).await {
                    // As it comes: a member that comes twice is seen.
                    Ok(l) => {
                        let mut l: Vec<J> = l.iter().map(|x| J::bytes(x)).collect();
                        l.sort();
                        Got::Value(Val { t: 7, v: J::A(l) })
                    }
                    Err(e) => e.told(),
                },
            }
        }
        (11, None) => val(c.get(k()).await),
        (11, Some(t)) => {
            let g = c.get(k());
            match t {
                0 => bytes(g.bytes().await),
                1 if alias => boolean(g.boolean().await),
                1 => boolean(g.bool().await),
                2 => val(g.float().await.map(Value::Float)),
                3 if alias => int(g.integer().await),
                3 => int(g.int().await),
                4 if alias => val(g.string().await.map(Value::String)),
                4 => val(g.str().await.map(Value::String)),
                5 => list(g.list().await),
                6 => val(g.map().await.map(|m| Value::Map(m.into_iter().collect()))),
                _ => val(g.set().await.map(|m| Value::Set(m.into_iter().collect()))),
            }
        }
        (12, _) => bytes(c.delete(k()).await),
        (13, _) if e.a.len() == 1 && alias => boolean(c.exists().key(k()).await),
        (13, _) => match c.exists().keys(e.a.clone()) {
            Ok(f) => boolean(f.await),
            Err(e) => config(e),
        },
        (14, t) if e.a.len() == 1 && alias => boolean(c.is(ktype(t.unwrap())).key(k()).await),
        (14, t) => match c.is(ktype(t.unwrap())).keys(e.a.clone()) {
            Ok(f) => boolean(f.await),
            Err(e) => config(e),
        },
        (15, _) => bytes(c.rename(k(), e.a[1].clone()).await),
        (16, _) => kind(c.key_type(k()).await),
        (20, _) => {
            let v = e.v.as_ref().expect("a value");
            let s = c.append(k());
            match v.t {
                0 => bytes(s.bytes(v.v.to_bytes()).await),
                4 if alias => val(s.string(text(v)).await.map(Value::String)),
                4 => val(s.str(text(v)).await.map(Value::String)),
                _ => list(s.list(items(v)).await),
            }
        }
        (21, t) => {
            let l = c.length(k());
            int(match t {
                None => l,
                Some(0) => l.bytes(),
                Some(4) if alias => l.string(),
                Some(4) => l.str(),
                Some(5) => l.list(),
                Some(6) => l.map(),
                _ => l.set(),
            }
            .await)
        }
        (22, _) => list(c.keys(k()).await),
        (100, _) => list(c.echo(k()).await),
        (101, _) => stats(c.stats().await),
        other => panic!("no such call {:?}", other),
    }
}

/// Makes the call on what is beneath a client.
pub async fn raw<B>(b: &B, e: &Call) -> Got
where
    B: Backend + Send + Sync + 'static,
    B::Error: Told,
{
    let t = e.t.map(ktype);
    let v = || e.v.as_ref().expect("a value").value();
    let k = e.a.get(0).cloned().unwrap_or_default();
    match e.m {
        0 => val(b.increment(&k, t).await),
        1 => val(b.decrement(&k, t).await),
        2 => val(b.increment_by(&k, v()).await),
        3 => val(b.decrement_by(&k, v()).await),
        10 => val(b.set(&k, v()).await),
        11 => val(b.get(&k, t).await),
        12 => bytes(b.delete(&k).await),
        13 => boolean(b.exists(e.a.clone()).await),
        14 => boolean(b.is(t.unwrap(), e.a.clone()).await),
        15 => bytes(b.rename(&k, &e.a[1]).await),
        16 => kind(b.key_type(&k).await),
        20 => val(b.append(&k, v()).await),
        21 => int(b.length(&k, t).await),
        22 => list(b.keys(&k).await),
        100 => list(b.echo(&k).await),
        _ => stats(b.stats().await),
    }
}

pub fn runtime() -> Runtime {
    tokio::runtime::Builder::new().basic_scheduler().enable_all().build().expect("runtime")
}

/// The outcome of a call, that it panicked or that it never ended included.
pub fn finish(rt: &mut Runtime, f: impl Future<Output = Got>) -> Got {
    match guarded(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(8), f).await })) {
        Ok(Ok(g)) => g,
        Ok(Err(_)) => Got::Hang,
        Err(m) => Got::Panic(m),
    }
}

/// Makes up programs.
struct Author {
    g: Gen,
    keys: Vec<Vec<u8>>,
    kinds: BTreeMap<Vec<u8>, u8>,
    raw: bool,
}

impl Author {
    fn new(seed: u64, raw: bool) -> Author {
        let mut g = Gen::new(seed);
        let mut keys = vec![b"a".to_vec(), b"b".to_vec()];
        if g.r.pct(50) {
            keys.push(g.r.pick(&[&b"\xff\x00"[..], "k\u{20ac}".as_bytes(), b"a b", &[b'L'; 300][..]]).to_vec());
        }
        Author { g, keys, kinds: BTreeMap::new(), raw }
    }
    fn blob(&mut self) -> Vec<u8> {
        let n = *self.g.r.pick(&[1usize, 1, 2, 3, 8, 20]);
        let n = if self.g.r.pct(4) { 0 } else { n };
        let n = if self.g.r.pct(2) { 3000 } else { n };
        if self.g.r.pct(50) { self.g.r.bytes(n) } else { vec![*self.g.r.pick(b"xyz\0\n"); n] }
    }
    fn short(&mut self) -> Vec<u8> {
        let mut b = self.blob();
        b.truncate(200);
        b
    }
    fn value(&mut self, t: u8) -> Val {
        let n = *self.g.r.pick(&[1usize, 1, 2, 3, 4]);
        let n = match self.g.r.below(50) {
            0 => 0,
            1 => *self.g.r.pick(&[126usize, 127, 128, 253, 254, 255]),
            _ => n,
        };
        let v = match t {
            1 => J::bytes(&[self.g.r.below(2) as u8]),
            2 | 3 => loop {
                let mut x = self.g.arg(t);
                if self.g.r.pct(25) {
                    x = if t == 2 { f8b(1.0) } else { i8b(1) };
                }
                if x.len() == 8 {
                    let mut a = [0; 8];
                    a.copy_from_slice(&x);
                    if t == 2 && f64::from_be_bytes(a).is_nan() {
                        x = vec![0x7f, 0xf8, 0, 0, 0, 0, 0, 0];
                    }
                    break J::bytes(&x);
                }
            },
            4 => loop {
                let b = self.g.arg(4);
                if std::str::from_utf8(&b).is_ok() {
                    break J::bytes(&b);
                }
            },
            5 | 7 => {
                let mut l: Vec<J> = (0..n).map(|_| J::bytes(&self.blob())).collect();
                if n > 100 {
                    l = (0..n).map(|i| J::bytes(&[(i / 16) as u8, i as u8])).collect();
                }
                J::A(l)
            }
            6 => {
                let mut l: Vec<J> =
                    (0..n).map(|_| J::A(vec![J::bytes(&self.short()), J::bytes(&self.blob())])).collect();
                if n > 100 {
                    l = (0..n).map(|i| J::A(vec![J::bytes(&[(i / 16) as u8, i as u8]), J::bytes(b"v")])).collect();
                }
                J::A(l)
            }
            _ => J::bytes(&self.blob()),
        };
        Val { t, v }
    }
    fn next(&mut self) -> Call {
        let m = *self.g.r.pick(&[
            0u8, 1, 2, 2, 3, 3, 10, 10, 10, 10, 10, 11, 11, 11, 11, 12, 12, 13, 14, 15, 15, 16, 20, 20, 20, 21, 21, 22, 100, 101,
        ]);
        let mut k = self.g.r.pick(&self.keys.clone()).clone();
        if self.g.r.pct(2) {
            k = vec![];
        }
        let has = self.kinds.get(&k).copied();
        let mut c = Call { m, t: None, a: vec![k.clone()], v: None, way: self.g.r.below(30) };
        let guess = |g: &mut Gen, of: &[u8]| match has {
            Some(t) if g.r.pct(70) && of.contains(&t) => t,
            _ => *g.r.pick(of),
        };
        match m {
            0 | 1 if self.raw => {
                if self.g.r.pct(60) {
                    let all = [2, 3, 2, 3, 0, 1, 4, 5, 6, 7];
                    c.t = Some(guess(&mut self.g, &all));
                }
            }
            2 | 3 => {
                let t = if self.raw && self.g.r.pct(15) { self.g.r.below(8) as u8 } else { guess(&mut self.g, &[2, 3]) };
                c.v = Some(self.value(t));
                // -0 - 0: whose sign of zero comes of it is nobody's concern.
                if m == 3 && t == 2 && c.v.as_ref().unwrap().v == J::bytes(&[0; 8]) {
                    c.v = Some(Val { t, v: J::bytes(&f8b(2.0)) });
                }
            }
            10 => {
                let t = self.g.r.below(8) as u8;
                let mut v = self.value(t);
                if self.raw || c.way % 5 == 0 {
                    v = Val::of(&v.value());
                }
                c.v = Some(v);
            }
            11 => {
                if self.g.r.pct(70) {
                    c.t = Some(guess(&mut self.g, &[0, 1, 2, 3, 4, 5, 6, 7]));
                }
            }
            13 | 14 => {
                if m == 14 {
                    c.t = Some(guess(&mut self.g, &[0, 1, 2, 3, 4, 5, 6, 7]));
                }
                let n = match self.g.r.below(20) {
                    0 => 0,
                    1 => *self.g.r.pick(&[254usize, 255, 256, 300]),
                    _ => 1 + self.g.r.below(3),
                };
                c.a = (0..n).map(|_| self.g.r.pick(&self.keys.clone()).clone()).collect();
                if n == 0 {
                    c.way = 1;
                }
            }
            15 => {
                let to = self.g.r.pick(&self.keys.clone()).clone();
                c.a.push(if self.g.r.pct(3) { vec![] } else { to });
            }
            20 => {
                let of: &[u8] = if self.raw && self.g.r.pct(15) { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 4, 5] };
                let t = guess(&mut self.g, of);
                let mut v = self.value(t);
                if self.raw {
                    v = Val::of(&v.value());
                }
                c.v = Some(v);
            }
            21 => {
                if self.g.r.pct(60) {
                    let of: &[u8] = if self.raw { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 4, 5, 6, 7] };
                    c.t = Some(guess(&mut self.g, of));
                }
            }
            100 => c.a = vec![self.blob()],
            101 => c.a = vec![],
            _ => {}
        }
        // What the store will have, roughly.
        match m {
            0 | 1 => {
                self.kinds.entry(k).or_insert(3);
            }
            2 | 3 | 10 => {
                let t = c.v.as_ref().unwrap().t;
                if m == 10 {
                    self.kinds.insert(k, t);
                } else {
                    self.kinds.entry(k).or_insert(t);
                }
            }
            12 => {
                self.kinds.remove(&k);
            }
            15 if c.a[0] != c.a[1] && !self.kinds.contains_key(&c.a[1]) => {
                if let Some(t) = self.kinds.remove(&k) {
                    self.kinds.insert(c.a[1].clone(), t);
                }
            }
            20 => {
                let t = c.v.as_ref().unwrap().t;
                self.kinds.entry(k).or_insert(t);
            }
            _ => {}
        }
        c
    }
}

fn line(id: usize, srv: u8, raw: bool, evs: &[String]) -> String {
    format!("{{\"id\":{},\"srv\":{},\"raw\":{},\"ev\":[{}]}}", id, srv, raw as u8, evs.join(","))
}

/// S03: the same programs in memory and against a server.
pub fn programs(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 100) as usize;
    let len = a.num("--len", 30) as usize;
    let base = seed_of(a, 4);
    jobs(a, n, 8, move |i| {
        let raw_mode = i % 4 == 3;
        let mut p = Author::new(base.wrapping_add(i as u64), raw_mode);
        let prog: Vec<Call> = (0..len).map(|_| p.next()).collect();
        let kill = if p.g.r.pct(12) { p.g.r.below(len) } else { len };
        let mut evs: [Vec<String>; 2] = [vec![], vec![]];
        let mut rt = runtime();

        let mem = Client::memory();
        let memb = MemoryBackend::new();
        for e in &prog {
            let o = if raw_mode { finish(&mut rt, raw(&memb, e)) } else { finish(&mut rt, call(&mem, e)) };
            evs[0].push(format!("{{{},\"o\":{}}}", e.s(), o.s()));
        }

        let mut sv = Some(Server::start(&bin, None));
        let addr = sv.as_ref().unwrap().addr;
        enum Srv {
            C(Client<ServerBackend>),
            B(ServerBackend),
        }
        let connected = guarded(|| {
            rt.block_on(async {
                if raw_mode {
                    ServerBackend::connect(addr).await.map(Srv::B)
                } else {
                    Client::connect(addr).await.map(Srv::C)
                }
            })
        });
        let conn = match connected {
            Ok(Ok(c)) => Ok(c),
            Ok(Err(e)) => Err(e.told()),
            Err(m) => Err(Got::Panic(m)),
        };
        for (j, e) in prog.iter().enumerate() {
            if j == kill {
                sv.take();
                evs[1].push(format!("{{\"m\":-1,\"t\":-1,\"a\":[],\"v\":{{\"t\":-1,\"v\":[]}},\"o\":{{\"k\":0}}}}"));
            }
            let o = match &conn {
                Ok(Srv::C(c)) => finish(&mut rt, call(c, e)),
                Ok(Srv::B(b)) => finish(&mut rt, raw(b, e)),
                Err(g) => g.clone(),
            };
            evs[1].push(format!("{{{},\"o\":{}}}", e.s(), o.s()));
            if let Got::Hang = o {
                break;
            }
        }
        Some(format!("{}\n{}", line(2 * i, 0, raw_mode, &evs[0]), line(2 * i + 1, 1, raw_mode, &evs[1])))
    });
}

/// The calls at the edges of what keys can be called and answers can carry.
fn edge(i: usize) -> Option<Vec<Call>> {
    let c = |m: u8, t: Option<u8>, a: &[&[u8]], v: Option<Val>, way: usize| Call {
        m,
        t,
        a: a.iter().map(|x| x.to_vec()).collect(),
        v,
        way,
    };
    let inner: &[u8] = b"__hop__:x";
    let num = |n: i64| Some(Val { t: 3, v: J::bytes(&i8b(n)) });
    let bin = |t: u8| Some(Val { t, v: J::bytes(b"v") });
    let wide_map = |n: usize, m: usize| {
        let mut l = vec![J::A(vec![J::bytes(&vec![b'k'; n]), J::bytes(b"v")])];
        for j in 1..m {
            l.push(J::A(vec![J::bytes(&[j as u8]), J::bytes(b"w")]));
        }
        Some(Val { t: 6, v: J::A(l) })
    };
    let wide_set = |n: usize, m: usize| {
        let mut l = vec![J::bytes(&vec![b'm'; n])];
        for j in 1..m {
            l.push(J::bytes(&[j as u8]));
        }
        Some(Val { t: 7, v: J::A(l) })
    };
    let wide_list = |n: usize| Some(Val { t: 5, v: J::A(vec![J::bytes(&vec![b'l'; n]), J::bytes(b"x")]) });
    let progs = vec![
        vec![c(0, None, &[inner], None, 1)],
        vec![c(1, None, &[inner], None, 1)],
        vec![c(2, None, &[inner], num(5), 1)],
        vec![c(3, None, &[inner], num(5), 1)],
        vec![c(10, None, &[inner], bin(0), 1)],
        vec![c(11, None, &[inner], None, 1)],
        vec![c(12, None, &[inner], None, 1)],
        vec![c(13, None, &[inner], None, 1)],
        vec![c(14, Some(0), &[inner], None, 1)],
        vec![c(15, None, &[inner, b"b"], None, 1)],
        vec![c(10, None, &[b"a"], bin(0), 1), c(15, None, &[b"a", inner], None, 1), c(13, None, &[b"a"], None, 1)],
        vec![c(16, None, &[inner], None, 1)],
        vec![c(20, None, &[inner], bin(0), 1)],
        vec![c(21, None, &[inner], None, 1)],
        vec![c(22, None, &[inner], None, 1)],
        vec![c(100, None, &[inner], None, 1)],
        vec![c(10, None, &[b"a"], wide_map(255, 1), 1), c(11, None, &[b"a"], None, 1), c(22, None, &[b"a"], None, 1)],
        vec![c(10, None, &[b"a"], wide_map(255, 4), 1), c(11, Some(6), &[b"a"], None, 1), c(21, None, &[b"a"], None, 1)],
        vec![c(10, None, &[b"a"], wide_map(256, 1), 1)],
        vec![c(10, None, &[b"a"], wide_map(257, 2), 1)],
        vec![c(10, None, &[b"a"], wide_map(300, 3), 1)],
        vec![c(10, None, &[b"a"], wide_map(512, 1), 1)],
        vec![c(10, None, &[b"a"], wide_set(65535, 1), 1), c(11, None, &[b"a"], None, 1), c(21, None, &[b"a"], None, 1)],
        vec![c(10, None, &[b"a"], wide_set(65536, 1), 1)],
        vec![c(10, None, &[b"a"], wide_set(65537, 2), 1)],
        vec![c(10, None, &[b"a"], wide_list(65536), 1), c(20, None, &[b"a"], wide_list(70000), 1), c(21, None, &[b"a"], None, 1)],
        vec![c(10, None, &[b"a"], Some(Val { t: 4, v: J::bytes(&vec![b's'; 65537]) }), 1), c(11, None, &[b"a"], None, 1)],
        vec![c(10, None, &[&[b'K'; 70000][..]], bin(4), 1), c(16, None, &[&[b'K'; 70000][..]], None, 1)],
    ];
    progs.into_iter().nth(i)
}

/// S03: programs at the edges.
pub fn edges(a: &Args) {
    let bin = a.str("--server", "");
    let n = (0..).take_while(|i| edge(*i).is_some()).count();
    jobs(a, n, 8, move |i| {
        let prog = edge(i).expect("a program");
        let mut evs: [Vec<String>; 2] = [vec![], vec![]];
        let mut rt = runtime();
        let mem = Client::memory();
        for e in &prog {
            let o = finish(&mut rt, call(&mem, e));
            evs[0].push(format!("{{{},\"o\":{}}}", e.s(), o.s()));
        }
        let sv = Server::start(&bin, None);
        let conn = guarded(|| rt.block_on(Client::connect(sv.addr)));
        for e in &prog {
            let o = match &conn {
                Ok(Ok(c)) => finish(&mut rt, call(c, e)),
                Ok(Err(e)) => e.told(),
                Err(m) => Got::Panic(m.clone()),
            };
            evs[1].push(format!("{{{},\"o\":{}}}", e.s(), o.s()));
        }
        Some(format!("{}\n{}", line(2 * i, 0, false, &evs[0]), line(2 * i + 1, 1, false, &evs[1])))
    });
}

/// A list that grows past what an answer can carry.
pub fn grow(a: &Args) {
    let bin = a.str("--server", "");
    let mut rt = runtime();
    let e = Call {
        m: 20,
        t: None,
        a: vec![b"a".to_vec()],
        v: Some(Val { t: 5, v: J::A((0..254).map(|_| J::bytes(b"x")).collect()) }),
        way: 1,
    };
    fn told(g: &Got) -> (bool, usize, String) {
        match g {
            Got::Value(v) => (v.t == 5, v.v.arr().len(), "value".to_owned()),
            other => (false, 0, other.s()),
        }
    }
    let mem = Client::memory();
    let sv = Server::start(&bin, None);
    let srv = rt.block_on(Client::connect(sv.addr));
    for (what, on) in &[("memory", false), ("server", true)] {
        let mut at = 0;
        for j in 1..=260usize {
            let o = match (on, &srv) {
                (false, _) => finish(&mut rt, call(&mem, &e)),
                (true, Ok(c)) => finish(&mut rt, call(c, &e)),
                (true, Err(e)) => e.told(),
            };
            let (ok, n, s) = told(&o);
            if !ok || n != 254 * j {
                println!("GREW {{\"srv\":\"{}\",\"len\":{},\"to\":{},\"o\":{}}}", what, at, 254 * j, if ok { format!("{{\"k\":0,\"len\":{}}}", n) } else { s });
                break;
            }
            at = n;
            if j == 260 {
                println!("GREW {{\"srv\":\"{}\",\"len\":{},\"to\":{},\"o\":{{\"k\":0}}}}", what, at, at);
            }
        }
    }
}

/// The length of the request at the start of `b`.
pub fn request_len(b: &[u8]) -> Option<usize> {
    let typed = *b.get(0)? >= 128;
    let mut p = if typed { 2 } else { 1 };
    if b.len() < p {
        return None;
    }
    if b[0] & 127 == 101 {
        return Some(p);
    }
    let n = *b.get(p)?;
    p += 1;
    for _ in 0..n {
        if b.len() < p + 4 {
            return None;
        }
        let l = u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
        p += 4 + l;
        if b.len() < p {
            return None;
        }
    }
    Some(p)
}

/// A response, well formed.
pub fn respond(v: &Val) -> Vec<u8> {
    let n4 = |n: usize| (n as u32).to_be_bytes().to_vec();
    let n2 = |n: usize| (n as u16).to_be_bytes().to_vec();
    let mut p = vec![];
    match v.t {
        1 => {
            p.push(0);
            p.extend(v.v.to_bytes());
        }
        0 | 4 => {
            let b = v.v.to_bytes();
            p.push(if v.t == 0 { 1 } else { 7 });
            p.extend(n4(b.len()));
            p.extend(b);
        }
        2 | 3 => {
            p.push(v.t);
            p.extend(v.v.to_bytes());
        }
        5 | 7 => {
            let l = v.v.arr();
            p.push(if v.t == 5 { 4 } else { 6 });
            p.extend(n2(l.len()));
            for x in l {
                let b = x.to_bytes();
                p.extend(if v.t == 5 { n4(b.len()) } else { n2(b.len()) });
                p.extend(b);
            }
        }
        _ => {
            let l = v.v.arr();
            p.push(5);
            p.extend(n2(l.len()));
            for x in l {
                let (k, b) = (x.arr()[0].to_bytes(), x.arr()[1].to_bytes());
                p.push(k.len() as u8);
                p.extend(k);
                p.extend(n4(b.len()));
                p.extend(b);
            }
        }
    }
    let mut out = n4(p.len());
    out.extend(p);
    out
}

fn read_request(s: &mut TcpStream, buf: &mut Vec<u8>, limit: Duration) -> Option<usize> {
    let since = Instant::now();
    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
    let mut b = [0; 65536];
    loop {
        if let Some(n) = request_len(buf) {
            return Some(n);
        }
        if since.elapsed() > limit {
            return None;
        }
        match s.read(&mut b) {
            Ok(0) => return None,
            Ok(n) => buf.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut || e.kind() == ErrorKind::Interrupted => {}
            Err(_) => return None,
        }
    }
}

pub fn reset(s: TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as libc::socklen_t,
        );
    }
}

/// What a server might answer to a call, rightly or not.
fn reply(p: &mut Author, e: &Call) -> Vec<u8> {
    let natural = match e.m {
        0 | 1 => *p.g.r.pick(&[2u8, 3]),
        2 | 3 | 10 | 20 => e.v.as_ref().unwrap().t,
        11 => e.t.unwrap_or_else(|| p.g.r.below(8) as u8),
        12 | 15 => 0,
        13 | 14 => 1,
        16 | 21 => 3,
        22 | 100 => 5,
        _ => 6,
    };
    let t = if p.g.r.pct(60) { natural } else { p.g.r.below(8) as u8 };
    let mut v = loop {
        let v = p.value(t);
        // No members twice, and lengths that fit.
        let w = Val::of(&v.value());
        if t < 6 || w.v.arr().len() == v.v.arr().len() {
            break v;
        }
    };
    if e.m == 16 && t == 3 && p.g.r.pct(70) {
        v.v = J::bytes(&i8b(*p.g.r.pick(&[0i64, 1, 2, 3, 4, 5, 6, 7, 8, -1, 255, 256, 257, i64::MIN, 263])));
    }
    if e.m == 101 && t == 6 && p.g.r.pct(70) {
        let names = ["commands_successful", "commands_errored", "sessions_started", "sessions_ended", "other"];
        let mut l = vec![];
        for n in &names {
            if p.g.r.pct(70) {
                let x = if p.g.r.pct(80) { i8b(p.g.r.next() as i64) } else { let n = p.g.r.below(12); p.g.r.bytes(n) };
                l.push(J::A(vec![J::bytes(n.as_bytes()), J::bytes(&x)]));
            }
        }
        v.v = J::A(l);
    }
    let mut b = respond(&v);
    match p.g.r.below(12) {
        0..=4 => {}
        5 => b = vec![0, 0, 0, 2, 9, p.g.r.below(8) as u8],
        6 => b = vec![0, 0, 0, 2, 8, p.g.r.below(2) as u8],
        7 => b = vec![0, 0, 0, 2, 8 + p.g.r.below(2) as u8, 8 + p.g.r.below(248) as u8],
        8 => b[4] = *p.g.r.pick(&[10u8, 11, 64, 255]),
        9 => {
            let i = 3 + p.g.r.below(b.len() - 3);
            b[i] = b[i].wrapping_add(1 + p.g.r.below(4) as u8);
        }
        10 => b = vec![0, 0, 0, 6, 7, 0, 0, 0, 1, 0xff],
        _ => {
            let n = p.g.r.below(20);
            b = p.g.r.bytes(n);
            if b.len() > 2 {
                b[0] = 0;
                b[1] = 0;
            }
        }
    }
    b
}

/// S03: servers that answer anything, or in part, or go away.
pub fn faults(a: &Args) {
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 5);
    jobs(a, n, 16, move |i| {
        let raw_mode = i % 5 == 4;
        let mut p = Author::new(base.wrapping_add(i as u64), raw_mode);
        let mut evs = vec![];
        let mut rt = runtime();
        for _ in 0..12 {
            let e = p.next();
            let mut rep = reply(&mut p, &e);
            // 0 goes on, 1 ends the connection, 2 resets it
            let mut end = p.g.r.below(3);
            if p.g.r.pct(40) {
                rep.truncate(p.g.r.below(rep.len() + 1));
                end = 1 + p.g.r.below(2);
            }
            let slow = p.g.r.pct(15);
            let cut = p.g.r.below(rep.len() + 1);
            let l = TcpListener::bind("127.0.0.1:0").expect("listen");
            let addr = l.local_addr().unwrap();
            // 0: answers; 1: nobody listens; 2: the connection ends at once
            let how = match p.g.r.below(25) {
                0 => 1,
                1 => 2,
                _ => 0,
            };
            let send = rep.clone();
            let srv = if how == 1 {
                drop(l);
                None
            } else {
                Some(std::thread::spawn(move || {
                    let (mut s, _) = l.accept().expect("accept");
                    let _ = s.set_nodelay(true);
                    let mut got = vec![];
                    if how == 2 {
                        reset(s);
                        return (got, vec![]);
                    }
                    let n = match read_request(&mut s, &mut got, Duration::from_secs(4)) {
                        Some(n) => n,
                        None => return (got, vec![]),
                    };
                    let first = got[..n].to_vec();
                    let mut rest = got[n..].to_vec();
                    if slow {
                        let _ = s.write_all(&send[..cut]);
                        std::thread::sleep(Duration::from_millis(5));
                        let _ = s.write_all(&send[cut..]);
                    } else {
                        let _ = s.write_all(&send);
                    }
                    match end {
                        1 => {}
                        2 => {
                            std::thread::sleep(Duration::from_micros(300));
                            reset(s)
                        }
                        _ => {
                            if let Some(n) = read_request(&mut s, &mut rest, Duration::from_millis(250)) {
                                let _ = s.write_all(&respond(&Val { t: 5, v: J::A(vec![J::bytes(b"again")]) }));
                                let _ = rest.split_off(n);
                            }
                        }
                    }
                    (first, rest)
                }))
            };
            let again = Call { m: 100, t: None, a: vec![b"again".to_vec()], v: None, way: 1 };
            let mut o2 = Got::Failed(0);
            let o = if raw_mode {
                match guarded(|| rt.block_on(ServerBackend::connect(addr))) {
                    Err(m) => Got::Panic(m),
                    Ok(Err(e)) => e.told(),
                    Ok(Ok(b)) => {
                        let o = finish(&mut rt, raw(&b, &e));
                        o2 = finish(&mut rt, raw(&b, &again));
                        o
                    }
                }
            } else {
                match guarded(|| rt.block_on(Client::connect(addr))) {
                    Err(m) => Got::Panic(m),
                    Ok(Err(e)) => e.told(),
                    Ok(Ok(c)) => {
                        let o = finish(&mut rt, call(&c, &e));
                        o2 = finish(&mut rt, call(&c, &again));
                        o
                    }
                }
            };
            let (w, w2) = match srv {
                Some(h) => h.join().expect("the other side"),
                None => (vec![], vec![]),
            };
            evs.push(format!(
                "{{{},\"how\":{},\"end\":{},\"w\":{},\"w2\":{},\"rep\":{},\"o\":{},\"o2\":{}}}",
                e.s(), how, end, jb(&w), jb(&w2), jb(&rep), o.s(), o2.s()
            ));
        }
        Some(line(i, 1, raw_mode, &evs))
    });
}

pub fn req_of(m: u8, a: &[&[u8]]) -> Vec<u8> {
    Req::new(m, None, a.iter().map(|x| x.to_vec()).collect()).encode()
}
