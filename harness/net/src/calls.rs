//! Calls of clones of one client that overlap, are cancelled and are answered
//! late, in part or wrongly.
use crate::{
    client::{call, request_len, reset, respond, runtime, Call, Got, Told},
    ops::i8b,
    srv::{jobs, seed_of},
    util::*,
    val::{Req, Val},
};
use hop::{backend::ServerBackend, Client};
use std::{
    collections::VecDeque,
    future::Future,
    io::{ErrorKind, Read, Write},
    net::{TcpListener, TcpStream},
    os::unix::io::{AsRawFd, FromRawFd},
    pin::Pin,
    sync::{Arc, Mutex},
    task::Poll,
    thread,
    time::{Duration, Instant},
};
use tokio::runtime::Runtime;

type Fut = Pin<Box<dyn Future<Output = Got>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Start,
    Poll(usize),
    Cancel(usize),
    /// The server reads what has come.
    Read,
    /// It answers the oldest request, whole or in part, or with something
    /// that isn't a response.
    Answer,
    Half,
    Spoil,
    Close,
}

const NONE: &str = "{\"k\":-1}";

fn ev(op: u8, i: i64, o: &str) -> String {
    format!("{{\"op\":{},\"i\":{},\"o\":{}}}", op, i, o)
}

/// A long value in short: its kind, and numbers that tell it from others.
fn brief(s: String) -> String {
    if s.len() < 1500 {
        return s;
    }
    let mut x: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        x = (x ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    let numbers = format!("{:?}", x.to_be_bytes());
    match s.find("\"t\":").and_then(|n| s.as_bytes().get(n + 4)) {
        Some(&t) if s.starts_with("{\"k\":0,") => {
            let n = if t >= b'5' { format!("[{}]", numbers) } else { numbers };
            format!("{{\"k\":0,\"v\":{{\"t\":{},\"v\":{}}}}}", t as char, n)
        }
        _ => s,
    }
}

/// The call numbered `i` and its request, unlike any other's.
fn make(r: &mut Rng, i: usize, same: bool, size: usize) -> (Call, Vec<u8>) {
    let key = format!("key-{}", i).into_bytes();
    let kind = match size {
        8 if same => 0,
        8 => r.below(8),
        _ => 5 + r.below(2),
    };
    let blob = |r: &mut Rng, n: usize| {
        let mut b = vec![i as u8; n];
        b[..4].copy_from_slice(&(r.next() as u32).to_be_bytes());
        J::bytes(&b)
    };
    let (m, t, v) = match kind {
        0 => (11, Some(0), None),
        1 => (11, None, None),
        2 => (0, None, None),
        3 => (12, None, None),
        4 => (16, None, None),
        5 => (10, None, Some(Val { t: 0, v: blob(r, 8.max(size)) })),
        6 => (20, None, Some(Val { t: 5, v: J::A(vec![blob(r, 8), blob(r, 8.max(size))]) })),
        _ => (100, None, None),
    };
    let c = Call { m, t, a: vec![key.clone()], v: v.clone(), way: 1 };
    let mut a = vec![key];
    let mut kt = t;
    if let Some(v) = v {
        kt = Some(v.t);
        match v.t {
            5 => a.extend(v.v.arr().iter().map(J::to_bytes)),
            _ => a.push(v.v.to_bytes()),
        }
    }
    (c, Req::new(m, kt, a).encode())
}

/// What the server answers to it.
fn answer(r: &mut Rng, c: &Call, i: usize, big: bool) -> (String, Vec<u8>) {
    if r.pct(10) {
        let e = r.below(8) as u8;
        return (format!("{{\"k\":1,\"e\":{}}}", e), vec![0, 0, 0, 2, 9, e]);
    }
    let mut tag = vec![i as u8, r.next() as u8, r.next() as u8, r.next() as u8];
    if big {
        tag.resize(5000 + r.below(300_000), i as u8);
    }
    let v = match c.m {
        10 | 20 if !big => c.v.clone().unwrap(),
        10 | 12 => Val { t: 0, v: J::bytes(&tag) },
        11 if c.t.is_some() => Val { t: 0, v: J::bytes(&tag) },
        11 => Val { t: 4, v: J::bytes(format!("value-{}-{}", i, r.below(1000)).as_bytes()) },
        0 => Val { t: 3, v: J::bytes(&i8b(i as i64 * 1000 + r.below(1000) as i64)) },
        16 => Val { t: 3, v: J::bytes(&i8b((i % 8) as i64)) },
        _ => Val { t: 5, v: J::A((0..r.below(3) + 1).map(|_| J::bytes(&tag)).collect()) },
    };
    let got = match c.m {
        // As the client gives it.
        16 => Val { t: 3, v: J::bytes(&i8b((i % 8) as i64)) },
        _ => v.clone(),
    };
    (brief(Got::Value(got).s()), respond(&v))
}

struct Side {
    s: Option<TcpStream>,
    inbuf: Vec<u8>,
    /// Seen, not answered; with what has been sent of the answer.
    owed: VecDeque<usize>,
    out: Vec<u8>,
    /// The answer that is on its way.
    current: Option<(usize, String)>,
}

impl Side {
    fn send(&mut self) {
        if let Some(s) = &mut self.s {
            while !self.out.is_empty() {
                match s.write(&self.out) {
                    Ok(n) if n > 0 => {
                        self.out.drain(..n);
                    }
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => return,
                    _ => {
                        self.out.clear();
                    }
                }
            }
        } else {
            self.out.clear();
        }
    }
    fn take(&mut self) {
        let mut b = [0; 65536];
        if let Some(s) = &mut self.s {
            loop {
                match s.read(&mut b) {
                    Ok(n) if n > 0 => self.inbuf.extend_from_slice(&b[..n]),
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    _ => return,
                }
            }
        }
    }
}

/// Has the other end of a connection, which is in this process too, hold little
/// that wasn't read, so that what it sends goes out in parts.
fn narrow(s: &TcpStream) {
    let (here, there) = match (s.local_addr(), s.peer_addr()) {
        (Ok(h), Ok(t)) => (h, t),
        _ => return,
    };
    let fds = match std::fs::read_dir("/proc/self/fd") {
        Ok(x) => x,
        Err(_) => return,
    };
    for fd in fds.filter_map(|e| e.ok()?.file_name().to_str()?.parse::<i32>().ok()) {
        let t = std::mem::ManuallyDrop::new(unsafe { TcpStream::from_raw_fd(fd) });
        if t.local_addr().ok() == Some(there) && t.peer_addr().ok() == Some(here) {
            let n: libc::c_int = 4096;
            unsafe {
                libc::setsockopt(
                    fd,
                    libc::SOL_SOCKET,
                    libc::SO_SNDBUF,
                    &n as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::c_int>() as libc::socklen_t,
                );
            }
        }
    }
}

/// Listens somewhere. Ports that were used lately can be held for a minute.
fn listen() -> TcpListener {
    let since = Instant::now();
    loop {
        match TcpListener::bind("127.0.0.1:0") {
            Ok(l) => return l,
            Err(ref e) if e.kind() == ErrorKind::AddrInUse && since.elapsed() < Duration::from_secs(120) => {
                thread::sleep(Duration::from_millis(100));
            }
            Err(e) => panic!("listen: {}", e),
        }
    }
}

impl Drop for Driven {
    /// Leaves no port held.
    fn drop(&mut self) {
        if let Some(s) = self.side.s.take() {
            reset(s);
        }
    }
}

struct Driven {
    rt: Runtime,
    client: Arc<Client<ServerBackend>>,
    side: Side,
    futs: Vec<Option<Fut>>,
    calls: Vec<(Call, Vec<u8>)>,
    seen: Vec<bool>,
    evs: Vec<String>,
    r: Rng,
    same: bool,
    sizes: bool,
}

impl Driven {
    fn new(r: Rng, same: bool, sizes: bool, small: bool) -> Option<Driven> {
        let mut rt = runtime();
        let l = listen();
        if small {
            let n: libc::c_int = 4096;
            unsafe {
                libc::setsockopt(
                    l.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_RCVBUF,
                    &n as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::c_int>() as libc::socklen_t,
                );
            }
        }
        let client = match guarded(|| rt.block_on(Client::connect(l.local_addr().unwrap()))) {
            Ok(Ok(c)) => c,
            _ => return None,
        };
        let (s, _) = l.accept().expect("accept");
        s.set_nonblocking(true).unwrap();
        let _ = s.set_nodelay(true);
        if small {
            narrow(&s);
        }
        Some(Driven {
            rt,
            client: Arc::new(client),
            side: Side { s: Some(s), inbuf: vec![], owed: VecDeque::new(), out: vec![], current: None },
            futs: vec![],
            calls: vec![],
            seen: vec![],
            evs: vec![],
            r,
            same,
            sizes,
        })
    }
    /// Lets the runtime notice what happened to its socket.
    fn turn(&mut self) {
        self.rt.block_on(async {
            for _ in 0..6 {
                let mut once = false;
                futures_yield(&mut once).await;
            }
        });
    }
    fn poll(&mut self, i: usize) {
        self.turn();
        let fut = match self.futs.get_mut(i) {
            Some(Some(f)) => f,
            _ => return,
        };
        let rt = &mut self.rt;
        let r = guarded(|| {
            rt.block_on(Once(|cx: &mut std::task::Context<'_>| match fut.as_mut().poll(cx) {
                Poll::Ready(g) => Some(g),
                Poll::Pending => None,
            }))
        });
        let done = match r {
            Ok(None) => return,
            Ok(Some(g)) => g,
            Err(m) => Got::Panic(m),
        };
        self.evs.push(ev(4, i as i64, &brief(done.s())));
        self.futs[i] = None;
    }
    fn reads(&mut self) {
        self.side.take();
        while let Some(n) = request_len(&self.side.inbuf) {
            let b: Vec<u8> = self.side.inbuf.drain(..n).collect();
            match (0..self.calls.len()).find(|&i| !self.seen[i] && self.calls[i].1 == b) {
                Some(i) => {
                    self.seen[i] = true;
                    self.side.owed.push_back(i);
                    self.evs.push(ev(2, i as i64, NONE));
                }
                None => {
                    self.evs.push(ev(5, -1, NONE));
                    return;
                }
            }
        }
    }
    /// Has an answer to send, if there's a request to answer.
    fn prepare(&mut self) -> bool {
        if self.side.current.is_some() {
            return true;
        }
        if let Some(i) = self.side.owed.pop_front() {
            let big = self.sizes && self.r.pct(10);
            let (o, b) = answer(&mut self.r, &self.calls[i].0.clone(), i, big);
            self.side.out.extend(b);
            self.side.current = Some((i, o));
            return true;
        }
        false
    }
    fn answers(&mut self) {
        if self.prepare() {
            let (i, o) = self.side.current.take().unwrap();
            self.evs.push(ev(3, i as i64, &o));
            self.side.send();
        }
    }
    fn op(&mut self, op: Op) {
        match op {
            Op::Start => {
                let i = self.futs.len();
                let size = match self.r.below(100) {
                    0..=7 if self.sizes => 100_000 + self.r.below(900_000),
                    8..=29 if self.sizes => 10_000 + self.r.below(90_000),
                    _ => 8,
                };
                let (c, b) = make(&mut self.r, i, self.same, size);
                let client = self.client.clone();
                let e = c.clone();
                self.futs.push(Some(Box::pin(async move { call(&client, &e).await })));
                self.calls.push((c, b));
                self.seen.push(false);
                self.evs.push(ev(0, i as i64, NONE));
                self.poll(i);
            }
            Op::Poll(i) => self.poll(i),
            Op::Cancel(i) => {
                if let Some(Some(_)) = self.futs.get(i) {
                    self.evs.push(ev(1, i as i64, NONE));
                    let f = self.futs[i].take();
                    let _ = guarded(|| drop(f));
                }
            }
            Op::Read => self.reads(),
            Op::Answer => self.answers(),
            Op::Half => {
                if self.prepare() && self.side.out.len() > 1 {
                    let n = 1 + self.r.below(self.side.out.len() - 1);
                    let rest = self.side.out.split_off(n);
                    self.side.send();
                    self.side.out.extend(rest);
                }
            }
            Op::Spoil => {
                if self.side.current.is_none() && self.prepare() {
                    let (i, _) = self.side.current.take().unwrap();
                    self.side.out.clear();
                    // What follows its type can look like a response.
                    let n = self.r.below(1000) as i64 - 1_000_000;
                    let like = respond(&Val { t: 3, v: J::bytes(&i8b(n)) });
                    let mut nested = vec![0, 0, 0, 1 + like.len() as u8, 77];
                    nested.extend(like);
                    let bad = [
                        nested,
                        vec![0, 0, 0, 2, 77, 1],
                        vec![0, 0, 0, 1, 200],
                        vec![0, 0, 0, 2, 9, 99],
                        vec![0, 0, 0, 6, 7, 0, 0, 0, 1, 0xff],
                    ];
                    self.side.out = self.r.pick(&bad).clone();
                    self.evs.push(ev(3, i as i64, "{\"k\":3,\"e\":3}"));
                    self.side.send();
                }
            }
            Op::Close => {
                if self.side.s.is_some() {
                    self.evs.push(ev(6, -1, NONE));
                    self.side.s = None;
                }
            }
        }
    }
    /// Everything is answered, and every call ends.
    fn settle(&mut self) {
        let since = Instant::now();
        loop {
            self.side.send();
            self.reads();
            if self.evs.last().map_or(false, |e| e.starts_with("{\"op\":5")) {
                return;
            }
            while self.side.current.is_some() || !self.side.owed.is_empty() {
                self.answers();
            }
            for i in 0..self.futs.len() {
                self.poll(i);
            }
            if self.futs.iter().all(Option::is_none) {
                return;
            }
            if since.elapsed() > Duration::from_secs(5) {
                for i in 0..self.futs.len() {
                    if self.futs[i].is_some() {
                        self.evs.push(ev(4, i as i64, &Got::Hang.s()));
                        return;
                    }
                }
            }
            if since.elapsed() > Duration::from_millis(20) {
                thread::sleep(Duration::from_millis(1));
            }
        }
    }
    fn line(&self, id: usize, how: u8) -> String {
        format!("{{\"id\":{},\"how\":{},\"n\":{},\"ev\":[{}]}}", id, how, self.futs.len(), self.evs.join(","))
    }
}

/// Ready at once, after looking.
struct Once<F>(F);

impl<F: FnMut(&mut std::task::Context<'_>) -> T + Unpin, T> Future for Once<F> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<T> {
        Poll::Ready((self.0)(cx))
    }
}

struct Yield<'a>(&'a mut bool);

impl Future for Yield<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> {
        if *self.0 {
            return Poll::Ready(());
        }
        *self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

fn futures_yield(b: &mut bool) -> Yield<'_> {
    Yield(b)
}

/// S04: calls polled, cancelled, read and answered in any order.
pub fn calls(a: &Args) {
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 6);
    jobs(a, n, 8, move |i| {
        let mut r = Rng::new(base.wrapping_add(i as u64));
        let same = r.pct(60);
        let sizes = r.pct(25);
        let small = r.pct(50);
        let mut d = match Driven::new(Rng::new(r.next()), same, sizes, small) {
            Some(d) => d,
            None => return Some(format!("{{\"id\":{},\"how\":0,\"n\":0,\"ev\":[{}]}}", i, ev(5, -1, NONE))),
        };
        let most = 2 + r.below(5);
        // Some have no trouble at all.
        let calm = r.pct(30);
        let rough = r.pct(25);
        d.op(Op::Start);
        for _ in 0..8 + r.below(30) {
            let k = d.futs.len();
            let x = r.below(100);
            let any = if k == 0 { 0 } else { r.below(k) };
            d.op(match x {
                0..=19 if k < most => Op::Start,
                0..=49 => Op::Poll(any),
                50..=59 if !calm => Op::Cancel(any),
                60..=74 => Op::Read,
                75..=86 => Op::Answer,
                87..=92 => Op::Half,
                93..=97 if rough => Op::Spoil,
                93..=95 => Op::Half,
                98 if rough => Op::Close,
                _ => Op::Read,
            });
            if d.evs.last().map_or(false, |e| e.starts_with("{\"op\":5")) {
                break;
            }
        }
        d.settle();
        Some(d.line(i, 0))
    });
}

/// S04: the orders TLC enumerates.
pub fn plans(a: &Args) {
    let text = std::fs::read_to_string(a.str("--plans", "")).expect("plans");
    let plans: Vec<Vec<u8>> = text.lines().map(|l| l.split(' ').map(|x| x.parse().expect("a number")).collect()).collect();
    let base = seed_of(a, 7);
    let n = plans.len();
    jobs(a, n, 8, move |i| {
        let mut d = match Driven::new(Rng::new(base.wrapping_add(i as u64)), true, false, false) {
            Some(d) => d,
            None => return Some(format!("{{\"id\":{},\"how\":2,\"n\":0,\"ev\":[{}]}}", i, ev(5, -1, NONE))),
        };
        for x in &plans[i] {
            let (k, c) = (x / 10, (x % 10) as usize);
            d.op(match k {
                0 => Op::Start,
                1 => Op::Poll(c - 1),
                2 => Op::Cancel(c - 1),
                3 => Op::Read,
                4 => Op::Answer,
                5 => Op::Half,
                6 => Op::Spoil,
                _ => Op::Close,
            });
            if d.evs.last().map_or(false, |e| e.starts_with("{\"op\":5")) {
                break;
            }
        }
        d.settle();
        Some(d.line(i, 2))
    });
}

/// Polls what is inside at most so many times, then drops it.
struct Limited {
    f: Option<Fut2>,
    polls: usize,
    log: Arc<Mutex<Vec<String>>>,
    i: usize,
}

type Fut2 = Pin<Box<dyn Future<Output = Got> + Send>>;

impl Future for Limited {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> {
        let i = self.i;
        if self.polls == 0 {
            self.log.lock().unwrap().push(ev(1, i as i64, NONE));
            self.f = None;
            return Poll::Ready(());
        }
        self.polls -= 1;
        if self.polls == 0 {
            // One more look would come too late: nothing may wake this.
            cx.waker().wake_by_ref();
        }
        let f = self.f.as_mut().expect("a call");
        match f.as_mut().poll(cx) {
            Poll::Ready(g) => {
                self.f = None;
                self.log.lock().unwrap().push(ev(4, i as i64, &brief(g.s())));
                Poll::Ready(())
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

/// S04: tasks on several threads against a server that takes its time.
pub fn crowd(a: &Args) {
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 8);
    let slow = a.num("--slow", 0) as u64;
    jobs(a, n, if slow > 0 { n } else { 4 }, move |h| {
        let mut r = Rng::new(base.wrapping_add(h as u64));
        let tasks = if slow > 0 { 2 } else { 2 + r.below(5) };
        let each = if slow > 0 { 2 + r.below(2) } else { 1 + r.below(6) };
        let total = tasks * each;
        let same = r.pct(60);
        let big = r.pct(20);
        let cancels = if r.pct(50) || slow > 0 { 0 } else { 5 + r.below(30) };
        // For long: the server, before, within or behind an answer, or the client.
        let (pause, at) = (Duration::from_millis(slow), h % 4);
        let mut calls = vec![];
        for i in 0..total {
            let size = if big && r.pct(10) { 50_000 } else { 8 };
            calls.push(make(&mut r, i, same, size));
        }
        let calls = Arc::new(calls);
        let log = Arc::new(Mutex::new(vec![]));
        let l = listen();
        let addr = l.local_addr().unwrap();
        let mut rt = tokio::runtime::Builder::new()
            .threaded_scheduler()
            .core_threads(3)
            .enable_all()
            .build()
            .expect("runtime");
        let server = {
            let (calls, log) = (calls.clone(), log.clone());
            let mut r = Rng::new(r.next());
            thread::spawn(move || {
                let (mut s, _) = match l.accept() {
                    Ok(x) => x,
                    Err(_) => return,
                };
                let _ = s.set_nodelay(true);
                let mut seen = vec![false; calls.len()];
                let mut inbuf: Vec<u8> = vec![];
                let mut b = [0; 65536];
                let lazy = r.pct(50);
                let mut first = true;
                let mut wait = |place: usize| {
                    if at == place && first {
                        thread::sleep(pause);
                        first = false;
                    }
                };
                loop {
                    while let Some(n) = request_len(&inbuf) {
                        let q: Vec<u8> = inbuf.drain(..n).collect();
                        let i = match (0..calls.len()).find(|&i| !seen[i] && calls[i].1 == q) {
                            Some(i) => i,
                            None => {
                                log.lock().unwrap().push(ev(5, -1, NONE));
                                return;
                            }
                        };
                        seen[i] = true;
                        log.lock().unwrap().push(ev(2, i as i64, NONE));
                        if lazy && r.pct(30) {
                            thread::sleep(Duration::from_micros(r.below(600) as u64));
                        }
                        let large = big && r.below(10) == 0;
                        let (o, bytes) = answer(&mut r, &calls[i].0, i, large);
                        let cut = if r.pct(40) || slow > 0 { r.below(bytes.len()) } else { 0 };
                        wait(0);
                        let _ = s.write_all(&bytes[..cut]);
                        wait(1);
                        if cut > 0 && r.pct(50) {
                            thread::sleep(Duration::from_micros(r.below(300) as u64));
                        }
                        log.lock().unwrap().push(ev(3, i as i64, &o));
                        let _ = s.write_all(&bytes[cut..]);
                        wait(2);
                    }
                    match s.read(&mut b) {
                        Ok(n) if n > 0 => inbuf.extend_from_slice(&b[..n]),
                        Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                        _ => {
                            reset(s);
                            return;
                        }
                    }
                }
            })
        };
        let client = match guarded(|| rt.block_on(Client::connect(addr))) {
            Ok(Ok(c)) => Arc::new(c),
            _ => return Some(format!("{{\"id\":{},\"how\":1,\"n\":0,\"ev\":[{}]}}", h, ev(5, -1, NONE))),
        };
        let mut plans: Vec<Vec<(usize, usize)>> = vec![];
        for t in 0..tasks {
            plans.push(
                (0..each)
                    .map(|k| (t * each + k, if r.pct(cancels) { 1 + r.below(4) } else { usize::max_value() }))
                    .collect(),
            );
        }
        let mut hs = vec![];
        for plan in plans {
            let (client, calls, log) = (client.clone(), calls.clone(), log.clone());
            hs.push(rt.spawn(async move {
                for (n, (i, polls)) in plan.into_iter().enumerate() {
                    if slow > 0 && at == 3 && n == 1 {
                        tokio::time::delay_for(pause).await;
                    }
                    log.lock().unwrap().push(ev(0, i as i64, NONE));
                    let (c, e) = (client.clone(), calls[i].0.clone());
                    let f: Fut2 = Box::pin(async move { call(&c, &e).await });
                    Limited { f: Some(f), polls, log: log.clone(), i }.await;
                }
            }));
        }
        let all = rt.block_on(async {
            tokio::time::timeout(Duration::from_millis(10_000 + 2 * slow), async {
                for h in hs {
                    let _ = h.await;
                }
            })
            .await
            .is_ok()
        });
        let mut evs = log.lock().unwrap().clone();
        if !all {
            evs.push(ev(4, 0, &Got::Hang.s()));
        }
        drop(client);
        if all {
            drop(rt);
        } else {
            rt.shutdown_timeout(Duration::from_millis(10));
        }
        let _ = if all { server.join().is_ok() } else { false };
        let evs2 = log.lock().unwrap().clone();
        if all && evs2.len() > evs.len() {
            evs = evs2;
        }
        Some(format!("{{\"id\":{},\"how\":1,\"n\":{},\"ev\":[{}]}}", h, total, evs.join(",")))
    });
}
