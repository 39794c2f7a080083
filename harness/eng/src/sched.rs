//! Runs threads against one engine under every order of their lock
//! operations (or as many as a limit allows), one thread at a time.
use crate::{ops::i8b, util::*, val::*};
use dashmap::verif::{self, Point};
use futures_intrusive::channel::shared::{Receiver, Sender};
use hop_engine::{
    metrics::Metric,
    pubsub::{KeyUpdate, Subscription},
    session::SessionId,
    Hop,
};
use std::{
    cell::RefCell,
    collections::{BTreeSet, HashSet},
    future::Future,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Condvar, Mutex, Weak,
    },
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    thread,
    time::{Duration, Instant},
};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Req(Req),
    Add(u8),
    Remove(u32),
    /// The ids go on from there.
    Next(u32),
    /// Many are added, and removed.
    Crowd(usize),
    Leave,
    Sub(u32, Vec<u8>),
    Unsub(u32, Vec<u8>),
    Has(u32, Vec<u8>),
    Drop(u32),
    /// Whether the channel of a subscription is open.
    Open(usize),
    /// A metrics operation with its operands.
    Met(u8, u8, u8),
}

type Channel = (u32, Vec<u8>, Weak<Subscription>, Receiver<KeyUpdate>, Sender<KeyUpdate>);

/// The subscriptions that succeeded since the run began.
static CHANNELS: Mutex<Vec<Channel>> = Mutex::new(vec![]);

/// The sessions that were added many at a time.
static CROWD: Mutex<BTreeSet<u32>> = Mutex::new(BTreeSet::new());

/// Forgets what earlier runs left.
pub fn fresh() {
    CHANNELS.lock().unwrap().clear();
    CROWD.lock().unwrap().clear();
    crate::met::fresh();
}

pub fn channels() -> usize {
    CHANNELS.lock().unwrap().len()
}

fn nothing(_: *const ()) {}
fn same(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VTABLE)
}
static VTABLE: RawWakerVTable = RawWakerVTable::new(same, nothing, nothing, nothing);

/// Whether receiving would wait, rather than finding the channel closed.
pub fn is_open(rx: &Receiver<KeyUpdate>) -> bool {
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VTABLE)) };
    let mut cx = Context::from_waker(&waker);
    let mut fut = Box::pin(rx.receive());
    !matches!(fut.as_mut().poll(&mut cx), Poll::Ready(None))
}

/// Whether sending would wait, rather than finding the channel closed.
pub fn sends(tx: &Sender<KeyUpdate>) -> bool {
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VTABLE)) };
    let mut cx = Context::from_waker(&waker);
    let mut fut = Box::pin(tx.send(KeyUpdate::Renamed { to: vec![1] }));
    !matches!(fut.as_mut().poll(&mut cx), Poll::Ready(Err(_)))
}

impl Op {
    pub fn s(&self) -> String {
        match self {
            Op::Req(r) => r.s(),
            Op::Add(t) => format!("\"c\":200,\"a\":{}", t),
            Op::Remove(i) => format!("\"c\":201,\"a\":{}", *i as i32),
            Op::Next(i) => format!("\"c\":202,\"a\":{}", *i as i32),
            Op::Crowd(n) => format!("\"c\":203,\"a\":{}", n),
            Op::Leave => "\"c\":204,\"a\":0".into(),
            Op::Sub(s, k) => format!("\"c\":210,\"a\":{},\"b\":{}", s, jb(k)),
            Op::Unsub(s, k) => format!("\"c\":211,\"a\":{},\"b\":{}", s, jb(k)),
            Op::Has(s, k) => format!("\"c\":212,\"a\":{},\"b\":{}", s, jb(k)),
            Op::Drop(s) => format!("\"c\":213,\"a\":{}", s),
            Op::Open(i) => format!("\"c\":214,\"a\":{}", i),
            Op::Met(c, x, y) => format!("\"c\":{},\"a\":{},\"b\":{}", c, x, y),
        }
    }
    /// The outcome as JSON.
    pub fn run(&self, hop: &Hop) -> String {
        let flag = |r: Result<bool, String>| match r {
            Ok(b) => format!("{{\"k\":0,\"n\":{}}}", b as u8),
            Err(m) => format!("{{\"k\":2,\"m\":{}}}", esc(&m)),
        };
        match self {
            Op::Req(r) => run(hop, r, &[]).s(),
            Op::Add(t) => match guarded(|| {
                let mut s = hop.sessions().clone();
                let r = s.add([*t; 32]);
                (r.value().id, *r.key(), r.value().client_token == [*t; 32])
            }) {
                Ok((id, key, tok)) => {
                    format!("{{\"k\":0,\"n\":{},\"ok\":{}}}", id as i32, (id == key && tok) as u8)
                }
                Err(m) => format!("{{\"k\":2,\"m\":{}}}", esc(&m)),
            },
            Op::Remove(i) => flag(guarded(|| hop.sessions().remove(*i))),
            Op::Next(i) => {
                hop.sessions().verif_set_next_id(*i);
                "{\"k\":0,\"n\":0}".into()
            }
            Op::Crowd(n) => match guarded(|| {
                let mut s = hop.sessions().clone();
                let mut ok = true;
                for i in 0..*n {
                    let r = s.add([i as u8; 32]);
                    ok &= r.value().id == *r.key() && r.value().client_token == [i as u8; 32];
                    let id = *r.key();
                    drop(r);
                    CROWD.lock().unwrap().insert(id);
                }
                ok
            }) {
                Ok(ok) => format!("{{\"k\":0,\"n\":{},\"ok\":{}}}", CROWD.lock().unwrap().len(), ok as u8),
                Err(m) => format!("{{\"k\":2,\"m\":{}}}", esc(&m)),
            },
            Op::Leave => match guarded(|| {
                CROWD.lock().unwrap().iter().filter(|i| hop.sessions().remove(**i)).count()
            }) {
                Ok(n) => format!("{{\"k\":0,\"n\":{}}}", n),
                Err(m) => format!("{{\"k\":2,\"m\":{}}}", esc(&m)),
            },
            Op::Sub(s, k) => match guarded(|| {
                hop.pubsub().subscribe(k.clone(), SessionId::verif_new(*s)).map(|w| {
                    // Gone already if it was ended in the meantime.
                    w.upgrade().map(|sub| (w, sub.receiver(), sub.sender()))
                })
            }) {
                Ok(None) => "{\"k\":0,\"n\":0,\"ch\":0}".into(),
                Ok(Some(None)) => "{\"k\":0,\"n\":1,\"ch\":0}".into(),
                Ok(Some(Some((w, rx, tx)))) => {
                    let mut g = CHANNELS.lock().unwrap();
                    g.push((*s, k.clone(), w, rx, tx));
                    format!("{{\"k\":0,\"n\":1,\"ch\":{}}}", g.len())
                }
                Err(m) => format!("{{\"k\":2,\"m\":{}}}", esc(&m)),
            },
            Op::Unsub(s, k) => {
                flag(guarded(|| hop.pubsub().unsubscribe(k, SessionId::verif_new(*s))))
            }
            Op::Has(s, k) => {
                flag(guarded(|| hop.pubsub().get(k, SessionId::verif_new(*s)).is_some()))
            }
            Op::Open(i) => flag(guarded(|| {
                let g = CHANNELS.lock().unwrap();
                let (s, k, w, rx, tx) = &g[*i - 1];
                let open = is_open(rx);
                assert_eq!(open, sends(tx), "the ends of a channel differ");
                if let Some(found) = hop.pubsub().get(k, SessionId::verif_new(*s)) {
                    // What looking a subscription up gives is one that was made.
                    let made = g.iter().any(|c| c.0 == *s && c.1 == *k && Weak::ptr_eq(&c.2, &found));
                    assert!(made && found.upgrade().is_some(), "another subscription was found");
                    assert!(!Weak::ptr_eq(w, &found) || open, "a live subscription is closed");
                }
                open
            })),
            Op::Met(c, x, y) => match guarded(|| crate::met::run(*c, *x, *y)) {
                Ok(s) => s,
                Err(m) => format!("{{\"k\":2,\"m\":{}}}", esc(&m)),
            },
            Op::Drop(s) => flag(guarded(|| hop.pubsub().remove_session(SessionId::verif_new(*s)))),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Starting,
    Ready,
    Running,
    Blocked(usize),
    Stuck,
    Done,
}

struct Inner {
    st: Vec<St>,
    turn: Option<usize>,
    tick: u64,
    /// The threads of an abandoned schedule wait here for ever.
    dead: bool,
}

struct Sched {
    m: Mutex<Inner>,
    ctl: Condvar,
    go: Vec<Condvar>,
}

struct Me {
    s: Arc<Sched>,
    i: usize,
    fresh: bool,
}

thread_local! {
    static ME: RefCell<Option<Me>> = RefCell::new(None);
}

/// Whether the locks of metrics are scheduling points too.
static ALL: AtomicBool = AtomicBool::new(false);
pub static POINTS: AtomicUsize = AtomicUsize::new(0);

fn relevant(name: &str) -> bool {
    ALL.load(Ordering::Relaxed) || !name.contains("etric")
}

impl Sched {
    fn pause(&self, i: usize, st: St) {
        let mut g = self.m.lock().unwrap();
        g.st[i] = st;
        if g.turn == Some(i) {
            g.turn = None;
        }
        self.ctl.notify_one();
        while g.turn != Some(i) || g.dead {
            g = self.go[i].wait(g).unwrap();
        }
        g.st[i] = St::Running;
    }
    fn tick(&self) -> u64 {
        let mut g = self.m.lock().unwrap();
        g.tick += 1;
        g.tick
    }
}

fn hook(p: Point, lock: usize, name: &'static str) {
    let me = ME.with(|m| {
        m.borrow_mut().as_mut().map(|m| {
            let fresh = m.fresh;
            if (p == Point::Read || p == Point::Write) && relevant(name) {
                m.fresh = false;
            }
            (m.s.clone(), m.i, fresh)
        })
    });
    let (s, i, fresh) = match me {
        Some(x) => x,
        None => return,
    };
    match p {
        Point::Read | Point::Write => {
            // The first one follows the point at the start of the operation.
            if relevant(name) && !fresh {
                POINTS.fetch_add(1, Ordering::Relaxed);
                s.pause(i, St::Ready);
            }
        }
        Point::Blocked => s.pause(i, St::Blocked(lock)),
        Point::Released => {
            let mut g = s.m.lock().unwrap();
            for x in g.st.iter_mut() {
                if *x == St::Blocked(lock) {
                    *x = St::Ready;
                }
            }
        }
    }
}

pub struct Done {
    /// inv, res, outcome per thread and operation; those without an outcome never ended.
    pub ev: Vec<Vec<(u64, u64, String)>>,
    pub deadlock: bool,
    pub choices: Vec<(usize, usize)>,
}

/// Runs one schedule: takes the choices given, then the first enabled thread.
pub fn one(hop: &Hop, threads: &[Vec<Op>], prefix: &[usize], mut rng: Option<&mut Rng>) -> Done {
    let n = threads.len();
    let s = Arc::new(Sched {
        m: Mutex::new(Inner { st: vec![St::Starting; n], turn: None, tick: 0, dead: false }),
        ctl: Condvar::new(),
        go: (0..n).map(|_| Condvar::new()).collect(),
    });
    let results: Arc<Mutex<Vec<Vec<(u64, u64, String)>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
    let handles: Vec<_> = threads
        .iter()
        .enumerate()
        .map(|(i, ops)| {
            let (s, hop, ops, results) = (s.clone(), hop.clone(), ops.clone(), results.clone());
            thread::spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some(Me { s: s.clone(), i, fresh: true }));
                verif::set_hook(Some(hook));
                for op in ops {
                    ME.with(|m| m.borrow_mut().as_mut().unwrap().fresh = true);
                    s.pause(i, St::Ready);
                    let inv = s.tick();
                    results.lock().unwrap()[i].push((inv, u64::max_value(), String::new()));
                    let o = op.run(&hop);
                    let res = s.tick();
                    *results.lock().unwrap()[i].last_mut().unwrap() = (inv, res, o);
                }
                verif::set_hook(None);
                let mut g = s.m.lock().unwrap();
                g.st[i] = St::Done;
                if g.turn == Some(i) {
                    g.turn = None;
                }
                s.ctl.notify_one();
            })
        })
        .collect();
    let mut choices = vec![];
    let mut last = 0;
    let mut idle: Option<Instant> = None;
    let mut deadlock = false;
    let mut g = s.m.lock().unwrap();
    loop {
        let busy = g.turn.is_some() || g.st.iter().any(|x| *x == St::Starting);
        if busy {
            let (h, t) = s.ctl.wait_timeout(g, Duration::from_millis(400)).unwrap();
            g = h;
            if t.timed_out() {
                // It waits for something other than a lock of the store.
                if let Some(i) = g.turn {
                    g.st[i] = St::Stuck;
                    g.turn = None;
                }
            }
            continue;
        }
        if g.st.iter().all(|x| *x == St::Done) {
            break;
        }
        let mut ready: Vec<usize> = (0..n).filter(|i| g.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            if g.st.iter().any(|x| *x == St::Stuck) && idle.map_or(true, |t| t.elapsed() < Duration::from_secs(5)) {
                idle = idle.or_else(|| Some(Instant::now()));
                g = s.ctl.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                continue;
            }
            deadlock = true;
            g.dead = true;
            break;
        }
        idle = None;
        // The thread that ran last comes first, so early choices are few switches.
        if let Some(p) = ready.iter().position(|i| *i == last) {
            ready.remove(p);
            ready.insert(0, last);
        }
        let c = match prefix.get(choices.len()) {
            Some(c) => (*c).min(ready.len() - 1),
            None => rng.as_mut().map_or(0, |r| r.below(ready.len())),
        };
        choices.push((c, ready.len()));
        last = ready[c];
        g.turn = Some(last);
        s.go[last].notify_one();
    }
    drop(g);
    if !deadlock {
        for h in handles {
            let _ = h.join();
        }
    }
    let ev = results.lock().unwrap().clone();
    Done { ev, deadlock, choices }
}

/// The next schedule in depth-first order.
pub fn next(choices: &[(usize, usize)]) -> Option<Vec<usize>> {
    let mut p: Vec<(usize, usize)> = choices.to_vec();
    while let Some((c, n)) = p.pop() {
        if c + 1 < n {
            let mut v: Vec<usize> = p.iter().map(|x| x.0).collect();
            v.push(c + 1);
            return Some(v);
        }
    }
    None
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub init: Vec<(Vec<u8>, Val)>,
    pub threads: Vec<Vec<Op>>,
    pub shards: usize,
}

pub struct Stats {
    pub progs: usize,
    pub schedules: usize,
    pub full: usize,
    pub histories: usize,
    pub deadlocks: usize,
}

/// Everything that a schedule showed, with the order of the operations as the
/// set of those that ended before each began.
pub fn history(p: &Prog, d: &Done, fin: &[(Vec<u8>, Val)], n: &[u64], post: &[(Op, String)], pid: usize) -> String {
    let mut ops = vec![];
    for (t, evs) in d.ev.iter().enumerate() {
        for (j, e) in evs.iter().enumerate() {
            ops.push((t, &p.threads[t][j], e));
        }
    }
    let mut ev: Vec<String> = ops
        .iter()
        .map(|(t, op, e)| {
            let before: Vec<J> = ops
                .iter()
                .enumerate()
                .filter(|(_, o)| (o.2).1 < e.0)
                .map(|(i, _)| J::N(i as i64 + 1))
                .collect();
            let o = if e.2.is_empty() { "{\"k\":3}" } else { &e.2 };
            format!("{{\"t\":{},{},\"o\":{},\"p\":{}}}", t, op.s(), o, J::A(before).s())
        })
        .collect();
    for (op, o) in post {
        let before = J::A((1..=ev.len()).map(|i| J::N(i as i64)).collect());
        ev.push(format!("{{\"t\":99,{},\"o\":{},\"p\":{}}}", op.s(), o, before.s()));
    }
    format!(
        "{{\"pid\":{},\"n\":{},\"init\":{},\"fin\":{},\"dead\":{},\"ev\":[{}]}}",
        pid,
        J::A(n.iter().map(|x| J::N(*x as i64)).collect()).s(),
        snap_s(&p.init),
        snap_s(fin),
        d.deadlock as u8,
        ev.join(",")
    )
}

/// What the counters say: successful, errored, sessions started and ended.
pub fn counters(hop: &Hop) -> Vec<u64> {
    let r = hop.metrics();
    [Metric::CommandsSuccessful, Metric::CommandsErrored, Metric::SessionsStarted, Metric::SessionsEnded]
        .iter()
        .map(|m| r.counter(m).unwrap_or(0))
        .collect()
}

/// Asks about everything once the threads are done.
pub fn after(profile: &str, hop: &Hop, d: &Done) -> Vec<(Op, String)> {
    let mut ops = vec![];
    match profile {
        "N01" => {
            for (_, _, o) in d.ev.iter().flatten() {
                if let (true, Some(i)) = (o.contains("\"ok\""), o.find("\"n\":")) {
                    let n: String = o[i + 4..].chars().take_while(|c| *c == '-' || c.is_ascii_digit()).collect();
                    let n = n.parse::<i32>().unwrap() as u32;
                    ops.push(Op::Remove(n));
                    ops.push(Op::Remove(n));
                }
            }
        }
        "P01" => {
            for s in 1..=2 {
                for k in &[b"a", b"b"] {
                    ops.push(Op::Has(s, k.to_vec()));
                }
            }
            ops.push(Op::Unsub(1, b"a".to_vec()));
            ops.push(Op::Drop(1));
            ops.push(Op::Has(1, b"b".to_vec()));
            ops.push(Op::Sub(1, b"a".to_vec()));
            ops.push(Op::Unsub(2, b"a".to_vec()));
            ops.push(Op::Has(2, b"a".to_vec()));
            ops.push(Op::Has(1, b"a".to_vec()));
            for i in 1..=CHANNELS.lock().unwrap().len() {
                ops.push(Op::Open(i));
            }
        }
        "M02" => {
            for k in 0..=1 {
                ops.push(Op::Met(222, k, 0));
                ops.push(Op::Met(223, k, 1));
            }
            ops.push(Op::Met(224, 0, 0));
            ops.push(Op::Met(224, 1, 0));
            for i in 0..crate::met::snapshots() {
                ops.push(Op::Met(226, i as u8, 0));
            }
        }
        "M01" => {
            ops.push(rq(101, -1, &[]));
            ops.push(rq(101, -1, &[]));
        }
        _ => {}
    }
    ops.into_iter().map(|op| { let o = op.run(hop); (op, o) }).collect()
}

pub fn keys() -> Vec<Vec<u8>> {
    vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()]
}

pub fn explore(profile: &str, p: &Prog, pid: usize, cap: usize, rng: &mut Rng, out: &mut Out, st: &mut Stats) {
    let mut seen = HashSet::new();
    let mut prefix: Vec<usize> = vec![];
    let mut tried = 0;
    verif::set_shards(p.shards);
    st.progs += 1;
    let mut random = 0;
    loop {
        let hop = if tried % 2 == 0 { Hop::new() } else { Hop::builder().build() };
        fresh();
        for (k, v) in &p.init {
            hop.state().insert(k.clone(), v.value());
        }
        let d = if random > 0 { one(&hop, &p.threads, &[], Some(rng)) } else { one(&hop, &p.threads, &prefix, None) };
        tried += 1;
        st.schedules += 1;
        let (mut fin, mut n, mut post) = (vec![], vec![], vec![]);
        if !d.deadlock {
            let stuck = || history(p, &Done { ev: d.ev.clone(), deadlock: true, choices: vec![] }, &[], &[], &[], pid);
            watched(stuck, || {
                fin = guarded(|| snapshot(&hop, &keys())).unwrap_or_default();
                post = after(profile, &hop, &d);
                n = counters(&hop);
            });
        }
        let h = history(p, &d, &fin, &n, &post, pid);
        if d.deadlock {
            st.deadlocks += 1;
        }
        if seen.insert(h.clone()) {
            st.histories += 1;
            out.line(&h);
        }
        if d.deadlock {
            // Its threads are lost, and one such schedule says enough.
            std::mem::forget(hop);
            break;
        }
        if random > 0 {
            random -= 1;
            if random == 0 {
                break;
            }
            continue;
        }
        match next(&d.choices) {
            None => {
                st.full += 1;
                break;
            }
            Some(_) if tried >= cap => random = cap / 2,
            Some(v) => prefix = v,
        }
    }
}

fn rq(c: u8, k: i8, a: &[&[u8]]) -> Op {
    Op::Req(Req::new(c, if k < 0 { None } else { Some(k as u8) }, a.iter().map(|x| x.to_vec()).collect()))
}

pub fn pool(profile: &str) -> Vec<Op> {
    let five = i8b(5);
    let three = i8b(3);
    let half = 0.5f64.to_be_bytes();
    let (a, b, c): (&[u8], &[u8], &[u8]) = (b"a", b"b", b"c");
    match profile {
        "X02" => vec![
            rq(0, -1, &[a]), rq(0, 3, &[a]), rq(1, 3, &[a]), rq(1, -1, &[a]), rq(2, 3, &[a, &five]),
            rq(2, -1, &[a, &three]), rq(3, 3, &[a, &three]), rq(2, 2, &[a, &half]), rq(0, 2, &[a]),
            rq(3, 2, &[a, &half]),
            rq(20, 5, &[a, b"p"]), rq(20, 5, &[a, b"q", b"r"]), rq(20, -1, &[a, b"s"]),
            rq(20, 0, &[a, b"t"]), rq(20, 4, &[a, b"u"]), rq(20, 0, &[a, b"v", b"w"]),
            rq(0, -1, &[b]), rq(20, 5, &[b, b"x"]), rq(11, -1, &[a]),
        ],
        "X03" => vec![
            rq(15, -1, &[a, b]), rq(15, -1, &[a, c]), rq(15, -1, &[b, a]), rq(15, -1, &[b, c]),
            rq(15, -1, &[c, b]), rq(15, -1, &[c, a]),
            rq(10, 0, &[b, b"new"]), rq(10, 3, &[a, &five]), rq(11, -1, &[a]), rq(11, -1, &[b]),
            rq(12, -1, &[b]), rq(12, -1, &[a]), rq(0, 3, &[b]), rq(20, 5, &[b, b"e"]), rq(15, -1, &[a, a]),
        ],
        "X04" => vec![
            rq(15, -1, &[a, b]), rq(15, -1, &[b, a]), rq(15, -1, &[a, a]), rq(13, -1, &[a, b]), rq(13, -1, &[b, a]),
            rq(14, 0, &[a, b]), rq(14, 3, &[b, a]), rq(10, 0, &[a, b"v"]), rq(10, -1, &[b, b"w"]),
            rq(10, 6, &[a, b"k", b"v"]), rq(10, 7, &[b, b"k"]), rq(22, -1, &[a]), rq(22, 6, &[b]),
            rq(21, -1, &[a]), rq(11, -1, &[b]), rq(16, -1, &[a]), rq(12, -1, &[a]), rq(20, 5, &[a, b"x"]),
            rq(0, -1, &[b]), rq(3, 2, &[a, &half]), rq(101, -1, &[]), rq(100, -1, &[a]),
            Op::Add(1), Op::Remove(0),
            Op::Sub(1, a.to_vec()), Op::Sub(2, a.to_vec()), Op::Sub(1, b.to_vec()), Op::Unsub(1, a.to_vec()),
            Op::Has(1, a.to_vec()), Op::Drop(1), Op::Drop(2),
        ],
        "N01" => vec![
            Op::Add(1), Op::Add(2), Op::Add(3), Op::Remove(0), Op::Remove(1), Op::Remove(2), Op::Remove(u32::max_value()),
            Op::Next(0), Op::Next(1), Op::Next(u32::max_value()),
        ],
        "P01" => vec![
            Op::Sub(1, a.to_vec()), Op::Sub(2, a.to_vec()), Op::Sub(1, b.to_vec()),
            Op::Unsub(1, a.to_vec()), Op::Unsub(2, a.to_vec()), Op::Has(1, a.to_vec()), Op::Has(2, a.to_vec()),
            Op::Drop(1), Op::Drop(2),
        ],
        "M02" => vec![
            Op::Met(220, 0, 0), Op::Met(220, 1, 1), Op::Met(220, 0, 2), Op::Met(221, 0, 7), Op::Met(221, 0, 200),
            Op::Met(221, 1, 9), Op::Met(222, 0, 0), Op::Met(222, 1, 1), Op::Met(223, 0, 0), Op::Met(224, 0, 0),
            Op::Met(224, 1, 0), Op::Met(225, 0, 0), Op::Met(227, 0, 0),
        ],
        "M01" => vec![
            rq(0, -1, &[a]), rq(11, -1, &[c]), rq(11, -1, &[a]), rq(10, -1, &[a, b"x"]), rq(101, -1, &[]),
            rq(100, -1, &[a]), rq(12, -1, &[b]), Op::Add(1), Op::Remove(0),
        ],
        _ => vec![
            rq(10, -1, &[a, b"x"]), rq(10, 4, &[a, b"y"]), rq(10, 3, &[a, &five]), rq(10, 5, &[a, b"p", b"q"]),
            rq(10, 6, &[a, b"k", b"v"]), rq(10, 0, &[b, b"v"]),
            rq(11, -1, &[a]), rq(11, 3, &[a]), rq(11, -1, &[b]),
            rq(12, -1, &[a]), rq(13, -1, &[a]), rq(13, -1, &[b]), rq(16, -1, &[a]), rq(14, 3, &[a]), rq(14, 0, &[b]),
            rq(0, 3, &[a]), rq(0, -1, &[a]), rq(2, 3, &[a, &three]), rq(3, 2, &[a, &half]),
            rq(20, 0, &[a, b"z"]), rq(20, -1, &[a, b"z"]), rq(20, 5, &[a, b"w"]), rq(20, 4, &[a, b"w"]),
            rq(21, -1, &[a]), rq(21, 0, &[a]), rq(21, 5, &[a]), rq(22, 6, &[a]), rq(22, -1, &[a]),
            rq(15, -1, &[a, b]), rq(15, -1, &[b, a]), rq(0, -1, &[b]),
        ],
    }
}

pub fn inits(profile: &str) -> Vec<Vec<(Vec<u8>, Val)>> {
    let v = |t: u8, j: &str| Val { t, v: J::parse(j) };
    let (a, b) = (b"a".to_vec(), b"b".to_vec());
    let bytes = || v(0, "[120]");
    let int = || v(3, "[0,0,0,0,0,0,0,3]");
    let list = || v(5, "[[112]]");
    match profile {
        "N01" | "P01" | "M02" => vec![vec![]],
        "M01" => vec![vec![(a, int())]],
        "X02" => vec![
            vec![],
            vec![(a.clone(), int())],
            vec![(a.clone(), list())],
            vec![(a.clone(), bytes())],
            vec![(a, v(2, "[63,248,0,0,0,0,0,0]"))],
        ],
        "X03" => vec![
            vec![(a.clone(), bytes())],
            vec![(a.clone(), int()), (b, bytes())],
            vec![(a, list())],
        ],
        "X04" => vec![vec![], vec![(a.clone(), v(6, "[[[107],[118]]]")), (b, bytes())]],
        _ => vec![
            vec![],
            vec![(a.clone(), bytes())],
            vec![(a.clone(), int())],
            vec![(a.clone(), list())],
            vec![(a.clone(), bytes()), (b, int())],
            vec![(a, v(6, "[[[107],[118]]]"))],
        ],
    }
}

/// All programs of two threads with one operation each, all or some of three,
/// and seeded programs with more operations.
pub fn programs(profile: &str, triples: usize, longer: usize, seed: u64) -> Vec<Prog> {
    let pool = pool(profile);
    let mut v = vec![];
    let mut r = Rng::new(seed ^ 0xC0);
    let shards: &[usize] = &[1, 64];
    for init in inits(profile) {
        for i in 0..pool.len() {
            for j in i..pool.len() {
                for s in shards {
                    v.push(Prog {
                        init: init.clone(),
                        threads: vec![vec![pool[i].clone()], vec![pool[j].clone()]],
                        shards: *s,
                    });
                }
            }
        }
    }
    let inits = inits(profile);
    let mut tri = HashSet::new();
    let n = pool.len();
    let all = n * (n + 1) * (n + 2) / 6 * inits.len();
    let want = triples.min(all);
    let mut tries = 0;
    while tri.len() < want && tries < want * 20 {
        tries += 1;
        let mut t = [r.below(n), r.below(n), r.below(n)];
        t.sort();
        tri.insert((r.below(inits.len()), t));
    }
    let mut tri: Vec<_> = tri.into_iter().collect();
    tri.sort();
    for (i, t) in tri {
        v.push(Prog {
            init: inits[i].clone(),
            threads: t.iter().map(|x| vec![pool[*x].clone()]).collect(),
            shards: *r.pick(shards),
        });
    }
    for _ in 0..longer {
        let shape: &[usize] = *r.pick(&[&[2usize, 2][..], &[2, 1], &[3, 1], &[2, 2], &[2, 1, 1], &[3, 2]]);
        v.push(Prog {
            init: r.pick(&inits).clone(),
            threads: shape.iter().map(|m| (0..*m).map(|_| r.pick(&pool).clone()).collect()).collect(),
            shards: *r.pick(shards),
        });
    }
    v
}

pub fn sched(a: &Args) {
    let profile = a.str("--profile", "X01");
    let cap = a.num("--cap", 2000) as usize;
    let seed = a.num("--seed", 1);
    let (part, parts) = (a.num("--part", 0) as usize, a.num("--parts", 1) as usize);
    if profile == "M01" || profile == "N01" {
        ALL.store(true, Ordering::Relaxed);
    }
    let progs = programs(&profile, a.num("--triples", 500) as usize, a.num("--longer", 200) as usize, seed);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(10));
    let mut out = Out::new(&path);
    let mut st = Stats { progs: 0, schedules: 0, full: 0, histories: 0, deadlocks: 0 };
    let mut rng = Rng::new(seed.wrapping_add(part as u64));
    for (i, p) in progs.iter().enumerate() {
        if i % parts == part {
            explore(&profile, p, i, cap, &mut rng, &mut out, &mut st);
            if st.deadlocks >= 20 {
                break;
            }
        }
    }
    out.done();
    println!(
        "{{\"programs\":{},\"schedules\":{},\"enumerated_completely\":{},\"histories\":{},\"deadlocks\":{},\"points\":{}}}",
        st.progs, st.schedules, st.full, st.histories, st.deadlocks, POINTS.load(Ordering::Relaxed)
    );
}
