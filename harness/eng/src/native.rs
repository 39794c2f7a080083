//! Threads that run freely, as fast as they can.
use crate::{ops::i8b, sched::*, util::*, val::*};
use dashmap::verif;
use hop_engine::Hop;
use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Barrier,
    },
    thread,
    time::Duration,
};

/// Runs the threads at once; every thread notes when each operation began and ended.
fn free(hop: &Hop, threads: &[Vec<Op>], stuck: impl FnOnce() -> String) -> Done {
    let tick = Arc::new(AtomicU64::new(1));
    let start = Arc::new(Barrier::new(threads.len()));
    let ev = watched(stuck, || {
        let hs: Vec<_> = threads
            .iter()
            .map(|ops| {
                let (tick, start, hop, ops) = (tick.clone(), start.clone(), hop.clone(), ops.clone());
                thread::spawn(move || {
                    let mut v = Vec::with_capacity(ops.len());
                    start.wait();
                    for op in &ops {
                        let inv = tick.fetch_add(1, Ordering::SeqCst);
                        let o = op.run(&hop);
                        let res = tick.fetch_add(1, Ordering::SeqCst);
                        v.push((inv, res, o));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    Done { ev, deadlock: false, choices: vec![] }
}

pub fn native(a: &Args) {
    let profile = a.str("--profile", "X01");
    let n = a.num("--n", 1000) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(10));
    let mut out = Out::new(&path);
    let mut seen = HashSet::new();
    let all = programs(&profile, 0, n, seed ^ 0x5A);
    let progs = &all[all.len() - n..];
    for (i, p) in progs.iter().enumerate() {
        verif::set_shards(if i % 3 == 0 { 0 } else { p.shards });
        for _ in 0..a.num("--times", 8) {
            let hop = Hop::new();
            fresh();
            for (k, v) in &p.init {
                hop.state().insert(k.clone(), v.value());
            }
            let none = || Done {
                ev: p.threads.iter().map(|t| t.iter().map(|_| (0, u64::max_value(), String::new())).collect()).collect(),
                deadlock: true,
                choices: vec![],
            };
            let d = free(&hop, &p.threads, || history(p, &none(), &[], &[], &[], i));
            let (mut fin, mut c, mut post) = (vec![], vec![], vec![]);
            watched(|| history(p, &none(), &[], &[], &[], i), || {
                fin = guarded(|| snapshot(&hop, &keys())).unwrap_or_default();
                post = after(&profile, &hop, &d);
                c = counters(&hop);
            });
            let h = history(p, &d, &fin, &c, &post, i);
            if seen.insert(h.clone()) {
                out.line(&h);
            }
        }
    }
    println!("{}", out.done());
}

/// Many threads counting or appending on a few keys, with the order of the
/// operations that their answers tell.
pub fn stress(a: &Args) {
    let rounds = a.num("--n", 200) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(20));
    let mut out = Out::new(&path);
    let mut id = 0;
    for round in 0..rounds {
        let mut r = Rng::new(seed.wrapping_mul(7919).wrapping_add(round as u64));
        verif::set_shards(*r.pick(&[0usize, 1, 64]));
        let hop = Hop::new();
        let nt = 2 + r.below(7);
        let per = *r.pick(&[1usize, 2, 5, 20]);
        let kind = r.below(6);
        let key = b"a".to_vec();
        let made = r.pct(30);
        let zero = match kind {
            0 | 1 => Val { t: 3, v: J::bytes(&i8b(if made { -5 } else { 0 })) },
            2 => Val { t: 2, v: J::bytes(&[0; 8]) },
            3 => Val { t: 5, v: J::A(vec![]) },
            4 => Val { t: 0, v: J::A(vec![]) },
            _ => Val { t: 4, v: J::A(vec![]) },
        };
        let init: Vec<(Vec<u8>, Val)> = if made { vec![(key.clone(), zero)] } else { vec![] };
        for (k, v) in &init {
            hop.state().insert(k.clone(), v.value());
        }
        let threads: Vec<Vec<Op>> = (0..nt)
            .map(|t| {
                (0..per)
                    .map(|j| {
                        let tag = vec![b'A' + t as u8, b'0' + j as u8];
                        Op::Req(match kind {
                            0 => Req::new(0, Some(3), vec![key.clone()]),
                            1 => {
                                if (t + j) % 2 == 0 {
                                    Req::new(2, Some(3), vec![key.clone(), i8b(1 + r.below(9) as i64)])
                                } else {
                                    Req::new(3, Some(3), vec![key.clone(), i8b(-1 - (r.below(9) as i64))])
                                }
                            }
                            2 => {
                                if r.pct(50) {
                                    Req::new(0, Some(2), vec![key.clone()])
                                } else {
                                    Req::new(2, Some(2), vec![key.clone(), 0.25f64.to_be_bytes().to_vec()])
                                }
                            }
                            3 => Req::new(20, Some(5), vec![key.clone(), tag.clone(), vec![b'e', b'0' + j as u8]]),
                            4 => Req::new(20, Some(0), vec![key.clone(), tag.clone()]),
                            _ => Req::new(20, Some(4), vec![key.clone(), tag.clone(), b"\xff".to_vec(), b"\xc3\xa9".to_vec()]),
                        })
                    })
                    .collect()
            })
            .collect();
        let d = free(&hop, &threads, || format!("{{\"id\":{},\"dead\":1,\"init\":[],\"fin\":[],\"ev\":[]}}", id));
        let fin = guarded(|| snapshot(&hop, &[key.clone()])).unwrap_or_default();
        let mut ev = vec![];
        for (t, es) in d.ev.iter().enumerate() {
            for (j, (inv, res, o)) in es.iter().enumerate() {
                ev.push(format!("{{\"t\":{},{},\"o\":{},\"i\":{},\"r\":{}}}", t, threads[t][j].s(), o, inv, res));
            }
        }
        out.line(&format!(
            "{{\"id\":{},\"dead\":0,\"init\":{},\"fin\":{},\"ev\":[{}]}}",
            id,
            snap_s(&init),
            snap_s(&fin),
            ev.join(",")
        ));
        id += 1;
    }
    println!("{}", out.done());
}

/// One or more threads with many requests of any kind, refused ones included,
/// and with sessions and statistics in between.
pub fn mixed(a: &Args) {
    let n = a.num("--n", 200) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(20));
    let mut out = Out::new(&path);
    for i in 0..n {
        let mut g = crate::ops::Gen::new(seed.wrapping_mul(31).wrapping_add(i as u64) ^ 0x3D);
        verif::set_shards(*g.r.pick(&[0usize, 1, 64]));
        let hop = if g.r.pct(50) { Hop::new() } else { Hop::builder().build() };
        fresh();
        let nt = if g.r.pct(50) { 1 } else { 2 + g.r.below(5) };
        let len = if nt == 1 { 60 } else { 4 + g.r.below(12) };
        let mut threads = vec![];
        for _ in 0..nt {
            let mut ops = vec![];
            for _ in 0..len {
                ops.push(match g.r.below(20) {
                    0 => Op::Add(g.r.below(256) as u8),
                    1 => Op::Remove(g.r.below(4) as u32),
                    2..=5 => Op::Req(Req::new(101, if g.r.pct(15) { Some(0) } else { None }, vec![])),
                    _ => {
                        let c = *g.r.pick(&COMMANDS);
                        let odd = g.r.pct(30);
                        let r = g.req(c, &keys(), &[], odd);
                        if crate::ops::reserved(&r) {
                            continue;
                        }
                        Op::Req(r)
                    }
                });
            }
            threads.push(ops);
        }
        let p = Prog { init: vec![], threads, shards: 0 };
        let none = || Done {
            ev: p.threads.iter().map(|t| t.iter().map(|_| (0, u64::max_value(), String::new())).collect()).collect(),
            deadlock: true,
            choices: vec![],
        };
        let d = free(&hop, &p.threads, || history(&p, &none(), &[], &[], &[], i));
        let post = after("M01", &hop, &d);
        let c = counters(&hop);
        out.line(&history(&p, &d, &[], &c, &post, i));
    }
    println!("{}", out.done());
}

/// Long sequential histories of metrics or subscription operations.
pub fn walks(a: &Args) {
    let profile = a.str("--profile", "M02");
    let n = a.num("--n", 200) as usize;
    let len = a.num("--len", 30) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(20));
    let mut out = Out::new(&path);
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(77).wrapping_add(i as u64) ^ 0x99);
        verif::set_shards(*r.pick(&[0usize, 1, 64]));
        let hop = Hop::new();
        fresh();
        let p = Prog { init: vec![], threads: vec![vec![]], shards: 0 };
        let mut made = vec![];
        let keys: Vec<Vec<u8>> = vec![b"a".to_vec(), b"b".to_vec(), vec![], vec![0, 255], vec![b'a'; 300]];
        for step in 0..len {
            let op = if profile == "N01" {
                let id = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 3, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
                match r.below(12) {
                    // More than fit in 16 bits, with others among them.
                    _ if i == 0 && step == 20 => Op::Crowd(70000),
                    _ if i == 0 && (step == 40 || step == 41) => Op::Leave,
                    // The crowd isn't to be removed one by one.
                    8..=11 if i == 0 && (20..42).contains(&step) => Op::Add(8),
                    0..=5 => Op::Add(r.below(256) as u8),
                    6 | 7 => Op::Next(id(&mut r)),
                    _ => Op::Remove(id(&mut r)),
                }
            } else if profile == "M02" {
                let k = r.below(4) as u8;
                let y = r.below(256) as u8;
                let c = *r.pick(&[220u8, 220, 220, 221, 221, 222, 222, 223, 223, 224, 225, 226, 227]);
                match c {
                    224 => Op::Met(224, k % 2, y % 3),
                    226 if crate::met::snapshots() == 0 => continue,
                    226 => Op::Met(226, r.below(crate::met::snapshots()) as u8, 0),
                    227 if !r.pct(30) => continue,
                    221 => Op::Met(221, k, y),
                    _ => Op::Met(c, k, y % 3),
                }
            } else {
                let s = *r.pick(&[0u32, 1, 2, 3, 2147483647]);
                let k = r.pick(&keys).clone();
                let ch = channels();
                match r.below(16) {
                    0..=5 => Op::Sub(s, k),
                    6..=8 => Op::Unsub(s, k),
                    9..=11 => Op::Has(s, k),
                    12 => Op::Drop(s),
                    _ if ch == 0 => continue,
                    _ => Op::Open(1 + r.below(ch)),
                }
            };
            let o = watched(|| history(&p, &Done { ev: vec![], deadlock: true, choices: vec![] }, &[], &[], &[], i), || op.run(&hop));
            made.push((op, o));
        }
        for x in after(&profile, &hop, &Done { ev: vec![vec![]], deadlock: false, choices: vec![] }) {
            made.push(x);
        }
        // Each begins when all before it have ended.
        let ev: Vec<String> = made
            .iter()
            .enumerate()
            .map(|(j, (op, o))| {
                let before: Vec<J> = if j == 0 { vec![] } else { vec![J::N(j as i64)] };
                format!("{{\"t\":0,{},\"o\":{},\"p\":{}}}", op.s(), o, J::A(before).s())
            })
            .collect();
        out.line(&format!(
            "{{\"pid\":{},\"n\":[],\"init\":[],\"fin\":[],\"dead\":0,\"ev\":[{}]}}",
            i,
            ev.join(",")
        ));
    }
    println!("{}", out.done());
}
