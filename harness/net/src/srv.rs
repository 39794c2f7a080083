//! The real server in a process of its own, and clients that talk bytes to it.
use crate::{
    ops::{mix, reserved, Gen},
    util::*,
    val::{decode, run, snapshot, Req, Res, Val},
};
use hop_engine::Hop;
use std::{
    io::{ErrorKind, Read, Write},
    net::{Shutdown, SocketAddr, TcpStream},
    os::unix::{io::AsRawFd, process::CommandExt},
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Barrier, Mutex,
    },
    thread::sleep,
    time::{Duration, Instant},
};

pub const PATIENCE: Duration = Duration::from_secs(6);

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub struct Server {
    child: Child,
    pub addr: SocketAddr,
}

impl Server {
    /// Starts a server that can have at most so many open files.
    pub fn start(bin: &str, files: Option<u64>) -> Server {
        for _ in 0..20 {
            // An address of its own, so that nobody else's server is taken for it.
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            let pid = std::process::id() as usize;
            let host = [127, 16 + (pid % 100) as u8, (n / 250 % 250 + 1) as u8, (n % 250 + 1) as u8];
            let addr = SocketAddr::from((host, 7000 + (pid / 100 % 1000) as u16));
            let mut cmd = Command::new(bin);
            cmd.env("HOST", addr.ip().to_string())
                .env("PORT", addr.port().to_string())
                .env_remove("RUST_LOG")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null());
            unsafe {
                cmd.pre_exec(move || {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if let Some(n) = files {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    }
                    Ok(())
                });
            }
            let mut child = cmd.spawn().expect("start the server");
            let since = Instant::now();
            loop {
                if TcpStream::connect_timeout(&addr, Duration::from_millis(500)).is_ok() {
                    if child.try_wait().unwrap().is_none() {
                        return Server { child, addr };
                    }
                    break;
                }
                if child.try_wait().unwrap().is_some() {
                    break;
                }
                if since.elapsed() > Duration::from_secs(15) {
                    let _ = child.kill();
                    let _ = child.wait();
                    break;
                }
                sleep(Duration::from_millis(3));
            }
        }
        println!("NOSTART");
        std::process::exit(0);
    }
    pub fn alive(&mut self) -> bool {
        self.child.try_wait().unwrap().is_none()
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// How many whole responses `b` has.
pub fn frames(b: &[u8]) -> usize {
    let (mut p, mut n) = (0, 0);
    while b.len() >= p + 4 {
        let l = u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
        if b.len() < p + 4 + l {
            break;
        }
        p += 4 + l;
        n += 1;
    }
    n
}

pub struct Conn {
    pub s: TcpStream,
}

impl Conn {
    pub fn open(addr: SocketAddr) -> Option<Conn> {
        let s = TcpStream::connect_timeout(&addr, PATIENCE).ok()?;
        s.set_nodelay(true).ok()?;
        Some(Conn { s })
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        let _ = self.s.set_write_timeout(Some(PATIENCE));
        self.s.write_all(b).is_ok()
    }
    /// Reads until there are so many whole responses (forever: until the end).
    /// The flag is 0 for that, 1 for the end of the connection, 2 when nothing
    /// came for too long.
    pub fn read(&mut self, want: Option<usize>, limit: Duration) -> (Vec<u8>, u8) {
        let mut got = vec![];
        let mut buf = vec![0; 65536];
        let _ = self.s.set_read_timeout(Some(limit));
        loop {
            if let Some(n) = want {
                if frames(&got) >= n {
                    return (got, 0);
                }
            }
            match self.s.read(&mut buf) {
                Ok(0) => return (got, 1),
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => {
                    return (got, 2)
                }
                Err(_) => return (got, 1),
            }
        }
    }
    /// Closes the connection with a reset.
    pub fn reset(self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as libc::socklen_t,
            );
        }
    }
}

/// Requests worth sending: those of the generator that every answer to can be
/// encoded, and that name no key the engine keeps to itself.
struct Pool {
    g: Gen,
    mirror: Hop,
    keys: Vec<Vec<u8>>,
    stats: bool,
    long: bool,
    huge: bool,
}

impl Pool {
    fn new(seed: u64, keys: &[&[u8]], stats: bool) -> Pool {
        Pool {
            g: Gen::new(seed),
            mirror: Hop::new(),
            keys: keys.iter().map(|k| k.to_vec()).collect(),
            stats,
            long: false,
            huge: false,
        }
    }
    fn next(&mut self) -> Req {
        loop {
            let kinds = snapshot(&self.mirror, &self.keys);
            let c = mix("", &mut self.g);
            let mut r = self.g.req(c, &self.keys.clone(), &kinds, false);
            if self.long && self.g.r.pct(40) && c != 101 && !r.a.is_empty() {
                let n = *self.g.r.pick(&[50usize, 60, 64, 65, 128, 200, 500, 1500]);
                let k = *self.g.r.pick(&[b'x', 0, 255, b'\n']);
                match c {
                    100 => r.a[0] = vec![k; n],
                    10 | 20 if r.k.unwrap_or(0) == 0 && r.a.len() > 1 => r.a[1] = vec![k; n],
                    _ => {}
                }
            }
            if self.huge {
                let n = *self.g.r.pick(&[65529usize, 65530, 65535, 65536, 70000, 131072]);
                let k = *self.g.r.pick(&[b'x', 0, 255]);
                r = match self.g.r.below(4) {
                    0 => Req::new(100, None, vec![vec![k; n]]),
                    1 => Req::new(100, None, vec![b"y".to_vec(), vec![k; n], b"z".to_vec()]),
                    2 => Req::new(10, Some(0), vec![b"a".to_vec(), vec![k; n]]),
                    _ => r,
                };
            }
            if reserved(&r) || (c == 101 && !self.stats) || r.a.len() > 255 {
                continue;
            }
            if let Res::Panic(_) | Res::Bad(_) = run(&self.mirror, &r, &[]) {
                continue;
            }
            return r;
        }
    }
}

fn ev(op: u8, t: usize, b: &[u8], o: &[u8], f: u8) -> String {
    format!("{{\"op\":{},\"t\":{},\"b\":{},\"o\":{},\"f\":{}}}", op, t, jb(b), jb(o), f)
}

/// Runs `n` numbered jobs on several threads and writes the lines they give.
pub fn jobs(a: &Args, n: usize, threads: usize, f: impl Fn(usize) -> Option<String> + Send + Sync + 'static) {
    let next = Arc::new(AtomicUsize::new(0));
    let lines = Arc::new(Mutex::new(Vec::new()));
    let f = Arc::new(f);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (next, lines, f) = (next.clone(), lines.clone(), f.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                if let Some(l) = f(i) {
                    lines.lock().unwrap().push((i, l));
                }
            })
        })
        .collect();
    for h in hs {
        h.join().expect("job");
    }
    let mut lines = std::mem::take(&mut *lines.lock().unwrap());
    lines.sort();
    let mut out = Out::new(&a.str("--out", "/dev/null"));
    for (_, l) in lines {
        out.line(&l);
    }
    println!("{{\"histories\":{}}}", out.done());
}

pub fn seed_of(a: &Args, i: usize) -> u64 {
    a.num("--seed", 1).wrapping_mul(1_000_003).wrapping_add(i as u64 * 7919)
}

/// S01: streams of requests in arbitrary segments on several connections. A
/// segment is sent once everything due before has come.
pub fn serve(a: &Args) {
    let bin = a.str("--server", "");
    let seeds = a.num("--seed", 1);
    let _ = seeds;
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 0);
    jobs(a, n, 8, move |i| {
        let mut sv = Server::start(&bin, None);
        let mut p = Pool::new(base.wrapping_add(i as u64), &[b"a", b"b", b"\xff\x00"], true);
        let kind = if i % 29 == 5 { 6 } else { i % 6 };
        p.long = kind == 4;
        p.huge = kind == 6;
        let conns = if kind < 2 { 1 } else { 1 + p.g.r.below(3) };
        let mut evs: Vec<String> = vec![];
        let mut cs: Vec<Conn> = (0..conns).map(|_| Conn::open(sv.addr).expect("connect")).collect();
        // Per connection: what is still to be sent, the ends of its requests
        // counted from the connection's start, and how much was sent.
        let mut todo: Vec<Vec<u8>> = vec![vec![]; conns];
        let mut ends: Vec<Vec<usize>> = vec![vec![]; conns];
        let mut sent = vec![0usize; conns];
        let per = match kind {
            0 => 2,
            3 => 40 + p.g.r.below(120),
            4 => 4,
            6 => 2,
            _ => 3 + p.g.r.below(6),
        };
        for _ in 0..per {
            for t in 0..conns {
                let b = p.next().encode();
                todo[t].extend(b);
                let e = sent[t] + todo[t].len();
                ends[t].push(e);
            }
        }
        let total: usize = todo.iter().map(Vec::len).sum();
        let bytewise = kind == 0 || (kind == 1 && total < 120);
        loop {
            let left: Vec<usize> = (0..conns).filter(|t| !todo[*t].is_empty()).collect();
            if left.is_empty() {
                break;
            }
            let t = *p.g.r.pick(&left);
            let all = todo[t].len();
            let upto = |k: usize| {
                ends[t].iter().filter(|e| **e > sent[t]).nth(k).map(|e| e - sent[t]).unwrap_or(all)
            };
            let len = if bytewise {
                if p.g.r.pct(60) { 1 } else { 1 + p.g.r.below(all.min(9)) }
            } else {
                match p.g.r.below(8) {
                    0 if kind != 3 && kind != 4 && kind != 6 => 1,
                    1 => 1 + p.g.r.below(all),
                    2 | 3 => upto(0),
                    4 => upto(1),
                    5 => upto(0).saturating_sub(1).max(1),
                    6 => (upto(0) + 1).min(all),
                    _ => if kind == 3 { all } else { upto(2) },
                }
            };
            let seg: Vec<u8> = todo[t].drain(..len).collect();
            let before = sent[t];
            sent[t] += len;
            let due = ends[t].iter().filter(|e| **e > before && **e <= sent[t]).count();
            let ok = cs[t].send(&seg);
            let (o, f) = if due > 0 { cs[t].read(Some(due), PATIENCE) } else { (vec![], 0) };
            evs.push(ev(0, t + 1, &seg, &o, f));
            if !ok || f != 0 {
                break;
            }
            if due == 0 && p.g.r.pct(70) {
                sleep(Duration::from_micros(*p.g.r.pick(&[100u64, 300, 1500])));
            }
        }
        for (t, c) in cs.iter_mut().enumerate() {
            let _ = c.s.shutdown(Shutdown::Write);
            let (o, f) = c.read(None, PATIENCE);
            evs.push(ev(1, t + 1, &[], &o, f));
        }
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"nd\":0,\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}

fn res_of(b: &[u8]) -> Option<(String, usize)> {
    let (r, n) = decode(b)?;
    Some((
        match r {
            Ok(v) => Res::Ok(v).s(),
            Err((9, e)) => Res::Err(e).s(),
            Err((_, e)) => Res::Bad(format!("parse error {}", e)).s(),
        },
        n,
    ))
}

/// S01: pipelining connections that run at the same time, as concurrent histories.
pub fn parallel(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 1);
    jobs(a, n, 4, move |i| {
        let sv = Server::start(&bin, None);
        let mut p = Pool::new(base.wrapping_add(i as u64), &[b"a", b"b"], false);
        let conns = 2 + p.g.r.below(2);
        // Each connection sends one or two batches.
        let mut plans: Vec<Vec<Vec<Req>>> = vec![];
        for _ in 0..conns {
            let batches = 1 + p.g.r.below(2);
            plans.push((0..batches).map(|_| (0..1 + p.g.r.below(2)).map(|_| p.next()).collect()).collect());
        }
        // Every key that there can be in the end.
        let mut names: Vec<Vec<u8>> = vec![b"a".to_vec(), b"b".to_vec()];
        for r in plans.iter().flatten().flatten() {
            names.extend(r.a.iter().take(if r.c == 15 { 2 } else { 1 }).filter(|k| !k.is_empty()).cloned());
        }
        names.sort();
        names.dedup();
        let clock = Arc::new(AtomicUsize::new(1));
        let gate = Arc::new(Barrier::new(conns));
        let hs: Vec<_> = plans
            .into_iter()
            .enumerate()
            .map(|(t, plan)| {
                let (clock, gate) = (clock.clone(), gate.clone());
                let mut c = Conn::open(sv.addr).expect("connect");
                std::thread::spawn(move || {
                    let mut out = vec![];
                    gate.wait();
                    for batch in plan {
                        let bytes: Vec<u8> = batch.iter().flat_map(|r| r.encode()).collect();
                        let start = clock.fetch_add(1, Ordering::SeqCst);
                        c.send(&bytes);
                        let (o, _) = c.read(Some(batch.len()), PATIENCE);
                        let end = clock.fetch_add(1, Ordering::SeqCst);
                        let mut at = 0;
                        for r in batch {
                            let res = match res_of(&o[at..]) {
                                Some((s, n)) => {
                                    at += n;
                                    s
                                }
                                None => Res::NoRequest.s(),
                            };
                            out.push((t, r, res, start, end));
                        }
                        if at != o.len() {
                            out.last_mut().unwrap().2 = Res::Bad("more than one response each".into()).s();
                        }
                    }
                    out
                })
            })
            .collect();
        let mut all = vec![];
        for h in hs {
            all.push(h.join().expect("client"));
        }
        let mut evs = vec![];
        let mut flat = vec![];
        for xs in all {
            for x in xs {
                flat.push(x);
            }
        }
        for (j, x) in flat.iter().enumerate() {
            let before: Vec<J> = flat
                .iter()
                .enumerate()
                .filter(|(k, y)| y.4 < x.3 || (y.0 == x.0 && *k < j))
                .map(|(k, _)| J::N(k as i64 + 1))
                .collect();
            evs.push(format!("{{\"t\":{},{},\"o\":{},\"p\":{}}}", x.0 + 1, x.1.s(), x.2, J::A(before).s()));
        }
        let mut fin = vec![];
        let mut c = Conn::open(sv.addr)?;
        for k in &names {
            c.send(&Req::new(11, None, vec![k.clone()]).encode());
            let (o, _) = c.read(Some(1), PATIENCE);
            if let Some((Ok(v), _)) = decode(&o) {
                fin.push(format!("{{\"n\":{},\"x\":{}}}", jb(k), v.s()));
            }
        }
        Some(format!(
            "{{\"id\":{},\"init\":[],\"fin\":[{}],\"dead\":0,\"n\":[],\"ev\":[{}]}}",
            i,
            fin.join(","),
            evs.join(",")
        ))
    });
}

/// Bytes that can't be the start of a request, up to where that shows.
fn malformed(g: &mut Gen) -> Vec<u8> {
    let bad: Vec<u8> = (0..128).filter(|c| !crate::val::COMMANDS.contains(c)).collect();
    match g.r.below(4) {
        0 => vec![*g.r.pick(&bad)],
        1 => vec![*g.r.pick(&bad) | 0x80, g.r.below(8) as u8],
        2 => vec![*g.r.pick(&bad) | 0x80, 8 + g.r.below(248) as u8],
        _ => vec![*g.r.pick(&crate::val::COMMANDS) | 0x80, 8 + g.r.below(248) as u8],
    }
}

struct Half {
    c: Conn,
    t: usize,
}

/// S02: connections that misbehave next to ones that don't.
pub fn trouble(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 100) as usize;
    let base = seed_of(a, 2);
    jobs(a, n, 8, move |i| {
        let mut sv = Server::start(&bin, None);
        let keys: [&[u8]; 3] = [b"a", b"b", b"c"];
        let mut p = Pool::new(base.wrapping_add(i as u64), &keys, false);
        let mut evs: Vec<String> = vec![];
        let mut nd = 0;
        let mut next = 1;
        let mut healthy: Vec<Half> = vec![];
        let mut open: Vec<Half> = vec![];
        let mut stuck: Vec<TcpStream> = vec![];
        for _ in 0..1 + p.g.r.below(2) {
            healthy.push(Half { c: Conn::open(sv.addr).expect("connect"), t: next });
            next += 1;
        }
        let mut abrupt = 0;
        let steps = 6 + p.g.r.below(10);
        let mut dead = false;
        for _ in 0..steps {
            // Something healthy in between.
            let j = p.g.r.below(healthy.len());
            let k = 1 + p.g.r.below(2);
            let b: Vec<u8> = (0..k).flat_map(|_| p.next().encode()).collect();
            healthy[j].c.send(&b);
            let (o, f) = healthy[j].c.read(Some(k), PATIENCE);
            evs.push(ev(0, healthy[j].t, &b, &o, f));
            if f != 0 {
                dead = true;
                break;
            }
            match p.g.r.below(10) {
                // A malformed request on a healthy connection.
                0 => {
                    let b = malformed(&mut p.g);
                    healthy[j].c.send(&b);
                    let (o, f) = healthy[j].c.read(Some(1), PATIENCE);
                    evs.push(ev(0, healthy[j].t, &b, &o, f));
                    if f != 0 {
                        dead = true;
                        break;
                    }
                }
                // One after a request in the same segment, and in pieces.
                1 => {
                    let r = p.next().encode();
                    let m = malformed(&mut p.g);
                    let mut b = r.clone();
                    b.extend(&m);
                    let cut = if p.g.r.pct(50) { b.len() } else { b.len() - m.len() + 1 };
                    healthy[j].c.send(&b[..cut]);
                    let due = 1 + (cut == b.len()) as usize;
                    let (o, f) = healthy[j].c.read(Some(due), PATIENCE);
                    // A one-byte malformed request is due already.
                    evs.push(ev(0, healthy[j].t, &b[..cut], &o, f));
                    if f != 0 {
                        dead = true;
                        break;
                    }
                    if cut < b.len() {
                        healthy[j].c.send(&b[cut..]);
                        let (o, f) = healthy[j].c.read(Some(1), PATIENCE);
                        evs.push(ev(0, healthy[j].t, &b[cut..], &o, f));
                        if f != 0 {
                            dead = true;
                            break;
                        }
                    }
                }
                // Malformed bytes with more behind, on a connection that then ends.
                2 => {
                    let mut c = Conn::open(sv.addr).expect("connect");
                    let good = p.g.r.below(3);
                    let mut b: Vec<u8> = (0..good).flat_map(|_| p.next().encode()).collect();
                    b.extend(malformed(&mut p.g));
                    b.extend(vec![0x7f; p.g.r.below(200)]);
                    c.send(&b);
                    let (mut o, _) = c.read(Some(good + 1), PATIENCE);
                    let _ = c.s.shutdown(Shutdown::Write);
                    let (more, f) = c.read(None, PATIENCE);
                    o.extend(more);
                    evs.push(ev(3, next, &b, &o, f));
                    next += 1;
                }
                // Half a request, left open for the rest of the history.
                3 => {
                    let mut c = Conn::open(sv.addr).expect("connect");
                    let b = p.next().encode();
                    let cut = p.g.r.below(b.len());
                    let b = if p.g.r.pct(30) {
                        // an argument that claims to be enormous
                        let mut b = vec![*p.g.r.pick(&[10u8, 100, 13]), 255, *p.g.r.pick(&[255u8, 127, 0x40]), 255, 255, 255];
                        b.extend(b"xyz");
                        b
                    } else {
                        b[..cut].to_vec()
                    };
                    c.send(&b);
                    evs.push(ev(0, next, &b, &[], 0));
                    open.push(Half { c, t: next });
                    next += 1;
                }
                // The end of a connection within a request: nothing of it may show.
                4 | 5 => {
                    let mut c = Conn::open(sv.addr).expect("connect");
                    let b = p.next().encode();
                    let cut = p.g.r.below(b.len());
                    c.send(&b[..cut]);
                    if p.g.r.pct(50) {
                        sleep(Duration::from_micros(200));
                    }
                    if p.g.r.pct(50) {
                        c.reset();
                    } else {
                        drop(c);
                    }
                    evs.push(ev(2, next, &b[..cut], &[], 0));
                    next += 1;
                }
                // Requests whose answers nobody waits for.
                6 if abrupt < 2 => {
                    abrupt += 1;
                    nd = 1;
                    let mut c = Conn::open(sv.addr).expect("connect");
                    let mut b: Vec<u8> = (0..1 + p.g.r.below(2)).flat_map(|_| p.next().encode()).collect();
                    if p.g.r.pct(40) {
                        let x = p.next().encode();
                        b.extend(&x[..p.g.r.below(x.len())]);
                    }
                    c.send(&b);
                    if p.g.r.pct(50) {
                        c.reset();
                    } else {
                        drop(c);
                    }
                    evs.push(ev(2, next, &b, &[], 0));
                    next += 1;
                    // Most of it has happened before anything else does: what isn't one
                    // step of the engine isn't this property's concern.
                    sleep(Duration::from_millis(2));
                }
                // Half-closed: everything sent is still answered.
                7 => {
                    let mut c = Conn::open(sv.addr).expect("connect");
                    let k = 1 + p.g.r.below(3);
                    let mut b: Vec<u8> = (0..k).flat_map(|_| p.next().encode()).collect();
                    if p.g.r.pct(40) {
                        let x = p.next().encode();
                        b.extend(&x[..p.g.r.below(x.len())]);
                    }
                    c.send(&b);
                    let _ = c.s.shutdown(Shutdown::Write);
                    let (o, f) = c.read(None, PATIENCE);
                    evs.push(ev(1, next, &b, &o, f));
                    next += 1;
                }
                // A key the engine keeps to itself: whatever becomes of the connection.
                8 => {
                    let mut c = Conn::open(sv.addr).expect("connect");
                    let b = Req::new(*p.g.r.pick(&[11u8, 21, 22]), None, vec![b"__hop__:x".to_vec()]).encode();
                    c.send(&b);
                    let _ = c.s.shutdown(Shutdown::Write);
                    let _ = c.read(None, PATIENCE);
                    evs.push(ev(2, next, &b, &[], 0));
                    next += 1;
                }
                // Peers that are gone at once, and peers that never read.
                _ => {
                    if p.g.r.pct(60) {
                        for _ in 0..20 {
                            if let Some(c) = Conn::open(sv.addr) {
                                c.reset();
                            }
                        }
                    } else if stuck.is_empty() {
                        let big = Req::new(100, None, vec![vec![b'z'; 60000]]).encode();
                        for _ in 0..12 {
                            if let Some(mut c) = Conn::open(sv.addr) {
                                let _ = c.s.set_nonblocking(true);
                                for _ in 0..200 {
                                    if c.s.write_all(&big).is_err() {
                                        break;
                                    }
                                }
                                stuck.push(c.s);
                            }
                        }
                    }
                }
            }
        }
        if !dead {
            // What is stored now, asked of someone new, and of the healthy.
            let mut c = Conn::open(sv.addr).expect("connect");
            let mut b = vec![];
            for k in &keys {
                b.extend(Req::new(11, None, vec![k.to_vec()]).encode());
            }
            c.send(&b);
            let (o, f) = c.read(Some(3), PATIENCE);
            evs.push(ev(0, next, &b, &o, f));
            for h in healthy.iter_mut().chain(open.iter_mut()) {
                let _ = h.c.s.shutdown(Shutdown::Write);
                let (o, f) = h.c.read(None, PATIENCE);
                evs.push(ev(1, h.t, &[], &o, f));
            }
        }
        drop(stuck);
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"nd\":{},\"up\":{},\"ev\":[{}]}}", i, nd, up, evs.join(",")))
    });
}

/// S02: more connections than the server can have open files.
pub fn exhaust(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 4) as usize;
    let base = seed_of(a, 3);
    jobs(a, n, 4, move |i| {
        let mut g = Gen::new(base.wrapping_add(i as u64));
        let mut sv = Server::start(&bin, Some(20 + g.r.below(20) as u64));
        let mut evs = vec!["{\"op\":5,\"t\":0,\"b\":[],\"o\":[],\"f\":1}".to_owned()];
        let mut served: Vec<Half> = vec![];
        let mut waiting: Vec<Half> = vec![];
        let tag = |g: &mut Gen| Req::new(100, None, vec![g.r.bytes(6)]).encode();
        for t in 1..100 {
            let mut c = Conn::open(sv.addr).expect("connect");
            let b = tag(&mut g);
            c.send(&b);
            let (o, f) = c.read(Some(1), Duration::from_millis(400));
            evs.push(ev(0, t, &b, &o, f));
            if f == 0 {
                served.push(Half { c, t });
            } else {
                waiting.push(Half { c, t });
            }
            if waiting.len() >= 5 {
                break;
            }
        }
        if waiting.len() < 5 || served.len() < 6 {
            println!("NOLIMIT {} {}", served.len(), waiting.len());
        }
        // Those who were served still are.
        for h in &mut served {
            let b = tag(&mut g);
            h.c.send(&b);
            let (o, f) = h.c.read(Some(1), PATIENCE);
            evs.push(ev(0, h.t, &b, &o, f));
        }
        evs.push("{\"op\":5,\"t\":0,\"b\":[],\"o\":[],\"f\":0}".to_owned());
        for (k, mut h) in served.into_iter().enumerate() {
            match k % 3 {
                0 => h.c.reset(),
                1 => drop(h),
                _ => {
                    let _ = h.c.s.shutdown(Shutdown::Write);
                    let (o, f) = h.c.read(None, PATIENCE);
                    evs.push(ev(1, h.t, &[], &o, f));
                }
            }
        }
        for h in &mut waiting {
            let (o, f) = h.c.read(Some(1), PATIENCE);
            evs.push(ev(6, h.t, &[], &o, f));
        }
        let mut c = Conn::open(sv.addr).expect("connect");
        let b = tag(&mut g);
        c.send(&b);
        let (o, f) = c.read(Some(1), PATIENCE);
        evs.push(ev(0, 100, &b, &o, f));
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"nd\":0,\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}

/// How many files there can be open at once.
fn room() -> usize {
    let text = std::fs::read_to_string("/proc/self/limits").unwrap_or_default();
    let line = text.lines().find(|l| l.starts_with("Max open files"));
    line.and_then(|l| l.split_whitespace().nth(3)?.parse().ok()).unwrap_or(1024)
}

/// S02: many connections at a time, most of which want nothing or haven't said
/// all of it, and many one after another.
pub fn herd(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 4) as usize;
    let base = seed_of(a, 9);
    let most = (room() - 100) / 4;
    jobs(a, n, 3, move |i| {
        let mut g = Gen::new(base.wrapping_add(i as u64));
        let mut sv = Server::start(&bin, None);
        let mut evs: Vec<String> = vec![];
        let tag = |g: &mut Gen| Req::new(100, None, vec![g.r.bytes(3)]).encode();
        let size = (*g.r.pick(&[70usize, 130, 260, 300, 520, 1050])).min(most);
        let idle = *g.r.pick(&[0, 50, 90, 100]);
        let mut one = Conn::open(sv.addr).expect("connect");
        let mut held: Vec<(Half, Vec<u8>)> = vec![];
        let mut silent = false;
        let mut next = 2;
        if i % 2 == 0 {
            // One after another.
            for _ in 0..size {
                let mut c = Conn::open(sv.addr).expect("connect");
                let b = tag(&mut g);
                let t = next;
                next += 1;
                match g.r.below(5) {
                    0 => c.reset(),
                    1 => drop(c),
                    2 => {
                        let part = b[..1 + g.r.below(b.len() - 1)].to_vec();
                        c.send(&part);
                        evs.push(ev(0, t, &part, &[], 0));
                        if g.r.pct(50) {
                            c.reset();
                        }
                    }
                    _ => {
                        c.send(&b);
                        let _ = c.s.shutdown(Shutdown::Write);
                        let (o, f) = c.read(None, PATIENCE);
                        evs.push(ev(1, t, &b, &o, f));
                        silent |= f == 2;
                    }
                }
                if silent {
                    break;
                }
            }
        }
        for _ in 0..size {
            if silent {
                break;
            }
            let mut c = Conn::open(sv.addr).expect("connect");
            let t = next;
            next += 1;
            let b = tag(&mut g);
            if g.r.below(100) < idle {
                let k = g.r.below(b.len());
                c.send(&b[..k]);
                if k > 0 {
                    evs.push(ev(0, t, &b[..k], &[], 0));
                }
                held.push((Half { c, t }, b[k..].to_vec()));
            } else {
                c.send(&b);
                let (o, f) = c.read(Some(1), PATIENCE);
                silent |= f == 2;
                evs.push(ev(0, t, &b, &o, f));
                let b = tag(&mut g);
                held.push((Half { c, t }, b));
            }
        }
        // The first of all is served, as is any of the others.
        for _ in 0..5 {
            let b = tag(&mut g);
            one.send(&b);
            let (o, f) = one.read(Some(1), if silent { Duration::from_millis(300) } else { PATIENCE });
            silent |= f == 2;
            evs.push(ev(0, 1, &b, &o, f));
            if held.is_empty() || silent {
                break;
            }
            let k = g.r.below(held.len());
            let (mut h, b) = held.swap_remove(k);
            h.c.send(&b);
            let (o, f) = h.c.read(Some(1), PATIENCE);
            silent |= f == 2;
            evs.push(ev(0, h.t, &b, &o, f));
            h.c.reset();
        }
        if !silent {
            let mut c = Conn::open(sv.addr).expect("connect");
            let b = tag(&mut g);
            c.send(&b);
            let (o, f) = c.read(Some(1), PATIENCE);
            evs.push(ev(0, next, &b, &o, f));
        }
        drop(held);
        let b = tag(&mut g);
        one.send(&b);
        let _ = one.s.shutdown(Shutdown::Write);
        let (o, f) = one.read(None, PATIENCE);
        evs.push(ev(1, 1, &b, &o, f));
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"nd\":0,\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}

/// S02: connections on which nothing comes for long, at all kinds of points of
/// a request, next to one on which something does.
pub fn idle(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 8) as usize;
    let slow = a.num("--slow", 1000) as u64;
    let base = seed_of(a, 12);
    jobs(a, n, n, move |i| {
        let mut g = Gen::new(base.wrapping_add(i as u64));
        let mut sv = Server::start(&bin, None);
        let mut evs: Vec<String> = vec![];
        let tag = |g: &mut Gen| {
            let n = 1 + g.r.below(9);
            match g.r.below(4) {
                0 => Req::new(101, None, vec![]),
                1 => Req::new(0, Some(3), vec![b"n".to_vec()]),
                2 => Req::new(100, Some(7), vec![g.r.bytes(n), g.r.bytes(2)]),
                _ => Req::new(100, None, vec![g.r.bytes(n)]),
            }
            .encode()
        };
        let mut busy = Conn::open(sv.addr).expect("connect");
        let mut held: Vec<(Half, Vec<u8>)> = vec![];
        for t in 2..14 {
            let mut c = Conn::open(sv.addr).expect("connect");
            // Some have had requests answered before.
            for _ in 0..g.r.below(3) {
                let b = tag(&mut g);
                c.send(&b);
                let (o, f) = c.read(Some(1), PATIENCE);
                evs.push(ev(0, t, &b, &o, f));
            }
            let b = tag(&mut g);
            let k = if t % 3 == 0 { 0 } else { g.r.below(b.len()) };
            if k > 0 {
                c.send(&b[..k]);
                evs.push(ev(0, t, &b[..k], &[], 0));
            }
            held.push((Half { c, t }, b[k..].to_vec()));
        }
        // One of them goes on a byte at a time.
        let mut slowest = if i % 2 == 0 { Some(held.remove(0)) } else { None };
        let since = Instant::now();
        let step = Duration::from_millis(slow / 13);
        while since.elapsed() < Duration::from_millis(slow) {
            sleep(step);
            let b = tag(&mut g);
            busy.send(&b);
            let (o, f) = busy.read(Some(1), PATIENCE);
            evs.push(ev(0, 1, &b, &o, f));
            if let Some((h, b)) = &mut slowest {
                if b.len() > 1 {
                    let part: Vec<u8> = b.drain(..1).collect();
                    h.c.send(&part);
                    evs.push(ev(0, h.t, &part, &[], 0));
                }
            }
        }
        held.extend(slowest);
        while !held.is_empty() {
            let k = g.r.below(held.len());
            let (mut h, b) = held.swap_remove(k);
            h.c.send(&b);
            let (o, f) = h.c.read(Some(1), PATIENCE);
            evs.push(ev(0, h.t, &b, &o, f));
            let b = tag(&mut g);
            h.c.send(&b);
            let _ = h.c.s.shutdown(Shutdown::Write);
            let (o, f) = h.c.read(None, PATIENCE);
            evs.push(ev(1, h.t, &b, &o, f));
        }
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"nd\":0,\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}

/// S01: the segments, interleavings and ends the specification enumerates.
pub fn segments(a: &Args) {
    let bin = a.str("--server", "");
    let text = std::fs::read_to_string(a.str("--plans", "")).expect("plans");
    let plans: Vec<J> = text.lines().map(J::parse).collect();
    let n = plans.len();
    let silent = AtomicUsize::new(0);
    jobs(a, n, 8, move |i| {
        if silent.load(Ordering::SeqCst) > 30 {
            return None;
        }
        let mut sv = Server::start(&bin, None);
        let mut evs: Vec<String> = vec![];
        let mut cs: Vec<Option<Conn>> = (0..2).map(|_| Some(Conn::open(sv.addr).expect("connect"))).collect();
        for x in plans[i].arr() {
            let x = x.arr();
            let (t, op, b, due) = (x[0].num() as usize, x[1].num(), x[2].to_bytes(), x[3].num() as usize);
            let mut c = cs[t - 1].take().expect("a connection that isn't over");
            match op {
                0 => {
                    let ok = c.send(&b);
                    let (o, f) = if due > 0 { c.read(Some(due), PATIENCE) } else { (vec![], 0) };
                    if due == 0 {
                        // So that it isn't one segment with the next.
                        sleep(Duration::from_micros(400));
                    }
                    evs.push(ev(0, t, &b, &o, f));
                    cs[t - 1] = Some(c);
                    if !ok || f != 0 {
                        silent.fetch_add((f == 2) as usize, Ordering::SeqCst);
                        break;
                    }
                }
                1 => {
                    let _ = c.s.shutdown(Shutdown::Write);
                    let (o, f) = c.read(None, PATIENCE);
                    silent.fetch_add((f == 2) as usize, Ordering::SeqCst);
                    evs.push(ev(1, t, &[], &o, f));
                }
                _ => {
                    if op == 4 {
                        c.reset();
                    } else {
                        drop(c);
                    }
                    evs.push(ev(2, t, &[], &[], 0));
                }
            }
        }
        // Some time for what nobody waits for to go wrong in.
        sleep(Duration::from_micros(300));
        let up = sv.alive() as u8;
        Some(format!("{{\"id\":{},\"nd\":0,\"up\":{},\"ev\":[{}]}}", i, up, evs.join(",")))
    });
}
