//! Values of megabytes, told as runs of equal bytes, and clients that are slow
//! to read what they asked for.
use crate::{client, srv::*, util::*, val::Req};
use hop::Client;
use std::{
    io::{Read, Write},
    net::Shutdown,
    thread::sleep,
    time::Duration,
};

const SIZES: [usize; 13] =
    [1, 9, 4095, 65536, 100_000, 262_144, 700_000, 1 << 20, (1 << 21) + 7, 3_000_000, 5_000_000, 9_000_000, 17_500_000];

pub fn runs_of(b: &[u8]) -> J {
    let mut l: Vec<(u8, usize)> = vec![];
    for x in b {
        match l.last_mut() {
            Some((f, n)) if f == x => *n += 1,
            _ => l.push((*x, 1)),
        }
        if l.len() > 40 {
            break;
        }
    }
    J::A(l.into_iter().map(|(f, n)| J::A(vec![J::N(f as i64), J::N(n as i64)])).collect())
}

/// k 0: bytes, 1: list, 2: integer, 3: an error, 4: something else, 5: nothing.
fn got(k: u8, runs: Vec<J>, n: i64) -> String {
    format!("{{\"k\":{},\"r\":{},\"n\":{}}}", k, J::A(runs).s(), n)
}

/// A response in a frame that is whole.
fn answer(b: &[u8]) -> String {
    let u32at = |p: usize| b.get(p..p + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize);
    match b.get(4) {
        Some(1) if u32at(5) == Some(b.len() - 9) => got(0, vec![runs_of(&b[9..])], 0),
        Some(3) if b.len() == 13 => {
            let mut x = [0; 8];
            x.copy_from_slice(&b[5..]);
            got(2, vec![], i64::from_be_bytes(x))
        }
        Some(4) if b.len() > 6 => {
            let count = b[5] as usize * 256 + b[6] as usize;
            let (mut p, mut l) = (7, vec![]);
            for _ in 0..count {
                match u32at(p) {
                    Some(n) if b.len() >= p + 4 + n => {
                        l.push(runs_of(&b[p + 4..p + 4 + n]));
                        p += 4 + n;
                    }
                    _ => return got(4, vec![], 0),
                }
            }
            if p == b.len() { got(1, l, 0) } else { got(4, vec![], 0) }
        }
        Some(9) if b.len() == 6 => got(3, vec![], b[5] as i64),
        _ => got(4, vec![], 0),
    }
}

struct Ask {
    c: u8,
    t: usize,
    f: u8,
    n: usize,
}

impl Ask {
    fn req(&self) -> Req {
        let key = vec![b'k', self.t as u8];
        match self.c {
            100 => Req::new(100, None, vec![vec![self.f; self.n]]),
            10 | 20 => Req::new(self.c, Some(0), vec![key, vec![self.f; self.n]]),
            c => Req::new(c, None, vec![key]),
        }
    }
    fn s(&self, o: &str) -> String {
        format!("{{\"c\":{},\"t\":{},\"f\":{},\"n\":{},\"o\":{}}}", self.c, self.t, self.f, self.n, o)
    }
}

fn plan(r: &mut Rng, t: usize, len: usize, budget: &mut usize) -> Vec<Ask> {
    let mut size = 0;
    let mut v = vec![];
    while v.len() < len {
        let c = *r.pick(&[10u8, 10, 20, 20, 11, 11, 11, 100, 21]);
        let n = *r.pick(&SIZES);
        let (cost, after) = match c {
            10 => (2 * n, n),
            20 => (n + size + n, size + n),
            11 => (size, size),
            100 => (2 * n, size),
            _ => (0, size),
        };
        if cost > *budget {
            if r.pct(10) {
                break;
            }
            continue;
        }
        *budget -= cost;
        size = after;
        v.push(Ask { c, t, f: r.below(3) as u8, n });
    }
    v
}

/// A large request, which has the server make room, and a crowd of small ones.
fn crowd(r: &mut Rng, t: usize) -> Vec<Ask> {
    let f = r.below(3) as u8;
    let mut v = vec![Ask { c: 10, t, f, n: *r.pick(&[65536, 262_144, 1 << 20]) }, Ask { c: 10, t, f, n: 1 }];
    let n = *r.pick(&[70usize, 300, 1100, 2500, 6000]);
    while v.len() < n {
        let c = *r.pick(&[10u8, 20, 11, 11, 21, 21, 100]);
        v.push(Ask { c, t, f, n: if c == 20 { 1 } else { 1 + r.below(9) } });
        if v.len() % 50 == 0 {
            v.push(Ask { c: 10, t, f, n: 1 });
        }
    }
    v
}

/// S01: large requests and responses, several of them on their way at once.
pub fn runs(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 20) as usize;
    let base = seed_of(a, 6);
    let slow = a.num("--slow", 0) as usize;
    jobs(a, n, 6, move |i| {
        let mut r = Rng::new(base.wrapping_add(i as u64));
        let mut sv = Server::start(&bin, None);
        let conns = 1 + r.below(2);
        let mut threads = vec![];
        for t in 0..conns {
            let mut budget = 40_000_000;
            let len = 2 + r.below(6);
            let many = i % 6 == 5 && slow == 0;
            let asks = if many { crowd(&mut r, t) } else { plan(&mut r, t, len, &mut budget) };
            let (eager, end, nap, sip) = (!many && r.pct(25), r.pct(40), r.below(250), *r.pick(&[4096usize, 65536, 1 << 20]));
            // Long enough for whoever gives up on those who don't read.
            let (eager, nap) = if slow > 0 { (false, slow) } else { (eager, nap) };
            let mut c = Conn::open(sv.addr).expect("connect");
            threads.push(std::thread::spawn(move || {
                let mut got: Vec<u8> = vec![];
                let mut out = vec![];
                if eager {
                    for q in &asks {
                        c.send(&q.req().encode());
                        let (o, _) = c.read(Some(1), PATIENCE);
                        got.extend(o);
                    }
                } else {
                    let mut w = c.s.try_clone().expect("clone");
                    let all: Vec<u8> = asks.iter().flat_map(|q| q.req().encode()).collect();
                    let sender = std::thread::spawn(move || {
                        let _ = w.set_write_timeout(Some(Duration::from_millis(30_000 + nap as u64)));
                        let _ = w.write_all(&all);
                        if end {
                            let _ = w.shutdown(Shutdown::Write);
                        }
                    });
                    sleep(Duration::from_millis(nap as u64));
                    let _ = c.s.set_read_timeout(Some(PATIENCE));
                    let mut buf = vec![0; sip];
                    let mut have = 0;
                    let mut at = 0;
                    while have < asks.len() || end {
                        match c.s.read(&mut buf) {
                            Ok(0) | Err(_) => break,
                            Ok(n) => got.extend_from_slice(&buf[..n]),
                        }
                        while let Some(n) = frame(&got[at..]) {
                            at += n;
                            have += 1;
                        }
                    }
                    let _ = c.s.shutdown(Shutdown::Both);
                    let _ = sender.join();
                }
                let mut at = 0;
                for q in &asks {
                    let o = match frame(&got[at..]) {
                        Some(n) => {
                            at += n;
                            answer(&got[at - n..at])
                        }
                        None => self::got(5, vec![], 0),
                    };
                    out.push(q.s(&o));
                }
                if at < got.len() {
                    // More than was asked for.
                    out.push(Ask { c: 255, t, f: 0, n: got.len() - at }.s(&self::got(4, vec![], 0)));
                }
                out
            }));
        }
        let mut evs = vec![];
        for t in threads {
            evs.extend(t.join().expect("client"));
        }
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}

fn frame(b: &[u8]) -> Option<usize> {
    if b.len() < 4 {
        return None;
    }
    let n = 4 + u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if b.len() < n { None } else { Some(n) }
}

/// S03: calls with large values, in memory and over a server.
pub fn bulk(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 20) as usize;
    let base = seed_of(a, 7);
    jobs(a, n, 6, move |i| {
        let mut r = Rng::new(base.wrapping_add(i as u64));
        let mut budget = 30_000_000;
        let len = 3 + r.below(6);
        let asks = plan(&mut r, 0, len, &mut budget);
        let mut rt = client::runtime();
        let mut evs = vec![];
        let mut up = 1;
        if i % 3 == 0 {
            let c = Client::memory();
            for q in &asks {
                evs.push(q.s(&finish(&mut rt, ask(&c, q))));
            }
        } else {
            let mut sv = Server::start(&bin, None);
            let addr = sv.addr;
            let c = rt.block_on(Client::connect(addr)).expect("connect");
            for q in &asks {
                evs.push(q.s(&finish(&mut rt, ask(&c, q))));
            }
            up = sv.alive() as u8;
        }
        Some(format!("{{\"id\":{},\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}

fn finish(rt: &mut tokio::runtime::Runtime, f: impl std::future::Future<Output = String>) -> String {
    guarded(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), f).await.unwrap_or(got(5, vec![], 0)) }))
        .unwrap_or(got(4, vec![], 0))
}

async fn ask<B>(c: &Client<B>, q: &Ask) -> String
where
    B: hop::backend::Backend + Send + Sync + 'static,
{
    let key = vec![b'k', q.t as u8];
    let bytes = |r: Option<Vec<u8>>| match r {
        Some(b) => got(0, vec![runs_of(&b)], 0),
        None => got(3, vec![], -1),
    };
    match q.c {
        10 => bytes(c.set(key).bytes(vec![q.f; q.n]).await.ok()),
        20 => bytes(c.append(key).bytes(vec![q.f; q.n]).await.ok()),
        11 => bytes(c.get(key).bytes().await.ok()),
        21 => match c.length(key).await {
            Ok(n) => got(2, vec![], n),
            Err(_) => got(3, vec![], -1),
        },
        _ => match c.echo(vec![q.f; q.n]).await {
            Ok(l) => got(1, l.iter().map(|b| runs_of(b)).collect(), 0),
            Err(_) => got(3, vec![], -1),
        },
    }
}
