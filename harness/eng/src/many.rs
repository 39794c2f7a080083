//! Long histories of hundreds of sessions, subscriptions and requests.
use crate::{
    sched::{counters, is_open, sends},
    util::*,
    val::{dispatch, Req, Res},
};
use dashmap::verif;
use futures_intrusive::channel::shared::{Receiver, Sender};
use hop_engine::{
    pubsub::{KeyUpdate, Subscription},
    session::SessionId,
    Hop,
};
use std::{
    collections::HashMap,
    sync::Weak,
    time::Duration,
};

type Channel = (Weak<Subscription>, Receiver<KeyUpdate>, Sender<KeyUpdate>);

struct Sys {
    hop: Hop,
    /// Sessions and keys have numbers, counted from these.
    base: u32,
    fill: usize,
    last: bool,
    chans: Vec<Channel>,
    latest: HashMap<(u32, usize, u32), usize>,
    added: Vec<u32>,
}

impl Sys {
    fn session(&self, n: u32) -> SessionId {
        SessionId::verif_new(self.base.wrapping_add(n))
    }
    /// Keys of a family differ at one end only, and those of another family in length.
    fn key(&self, family: usize, n: u32) -> Vec<u8> {
        let mut k = vec![b'k'; self.fill + family];
        let n = n.to_be_bytes();
        if self.last {
            k.extend_from_slice(&n);
        } else {
            k.splice(0..0, n.iter().copied());
        }
        k
    }
}

#[derive(Clone, Copy)]
struct Ev {
    c: u32,
    f: usize,
    x: (u32, u32),
    y: (u32, u32),
    kind: usize,
}

fn apply(s: &mut Sys, e: &Ev) -> Vec<i64> {
    let mut o = vec![];
    match e.c {
        310..=312 => {
            for x in e.x.0..=e.x.1 {
                for y in e.y.0..=e.y.1 {
                    let key = s.key(e.f, y);
                    let id = s.session(x);
                    let cell = (x, e.f, y);
                    o.push(i64::from(match e.c {
                        310 => match s.hop.pubsub().subscribe(key, id) {
                            None => false,
                            Some(w) => {
                                let sub = w.upgrade().expect("a new subscription is gone");
                                s.chans.push((w, sub.receiver(), sub.sender()));
                                s.latest.insert(cell, s.chans.len() - 1);
                                true
                            }
                        },
                        311 => s.hop.pubsub().unsubscribe(&key, id),
                        _ => match s.hop.pubsub().get(&key, id) {
                            None => false,
                            Some(w) => {
                                let made = &s.chans[*s.latest.get(&cell).expect("a subscription nobody made")];
                                assert!(Weak::ptr_eq(&made.0, &w), "another subscription was found");
                                assert!(w.upgrade().is_some(), "the subscription found is gone");
                                true
                            }
                        },
                    }));
                }
            }
        }
        313 => {
            for x in e.x.0..=e.x.1 {
                let id = s.session(x);
                o.push(i64::from(s.hop.pubsub().remove_session(id)));
            }
        }
        314 => {
            for x in e.x.0..=e.x.1 {
                let (_, rx, tx) = &s.chans[x as usize - 1];
                let open = is_open(rx);
                assert_eq!(open, sends(tx), "the ends of a channel differ");
                o.push(i64::from(open));
            }
        }
        315 => {
            let r = match e.kind {
                0 => Req::new(0, None, vec![b"n".to_vec()]),
                1 => Req::new(100, None, vec![b"x".to_vec()]),
                2 => Req::new(21, None, vec![b"missing".to_vec()]),
                3 => Req::new(0, None, vec![]),
                4 => Req::new(10, Some(4), vec![b"key".to_vec(), b"y".to_vec()]),
                5 => Req::new(12, None, vec![b"key".to_vec()]),
                _ => Req::new(20, Some(3), vec![b"n".to_vec(), b"zz".to_vec()]),
            };
            let (mut good, mut bad) = (0, 0);
            for _ in 0..e.x.1 {
                match r.with(|q| dispatch(&s.hop, q, &[])) {
                    Some(Res::Ok(_)) => good += 1,
                    Some(Res::Err(_)) => bad += 1,
                    _ => panic!("neither an answer nor an error"),
                }
            }
            o = vec![good, bad];
        }
        316 => {
            let r = Req::new(101, None, vec![]);
            o = match r.with(|q| dispatch(&s.hop, q, &[])) {
                Some(Res::Ok(v)) => numbers(&v.s()),
                _ => panic!("no statistics"),
            };
        }
        319 => o = counters(&s.hop).iter().map(|n| *n as i64).collect(),
        317 => {
            for i in 0..e.x.1 {
                let mut m = s.hop.sessions().clone();
                let a = m.add([i as u8; 32]);
                assert_eq!(*a.key(), a.id, "a session has another id");
                let id = *a.key();
                drop(a);
                s.added.push(id);
                o.push(i64::from(id as i32));
            }
        }
        _ => {
            for x in e.x.0..=e.x.1 {
                let id = s.added[x as usize - 1];
                o.push(i64::from(s.hop.sessions().remove(id)));
            }
        }
    }
    o
}

/// The four counters in a response to stats.
fn numbers(v: &str) -> Vec<i64> {
    let j = J::parse(v);
    let mut out = vec![0; 4];
    let names = ["commands_successful", "commands_errored", "sessions_started", "sessions_ended"];
    fn walk(j: &J, names: &[&str], out: &mut Vec<i64>) {
        if let J::A(a) = j {
            if let [J::A(k), J::A(n)] = &a[..] {
                if k.iter().chain(n.iter()).all(|x| matches!(x, J::N(_))) && n.len() == 8 {
                    let k = J::A(k.clone()).to_bytes();
                    let b = J::A(n.clone()).to_bytes();
                    if let Some(i) = names.iter().position(|x| x.as_bytes() == &k[..]) {
                        let mut raw = [0; 8];
                        raw.copy_from_slice(&b);
                        out[i] = i64::from_be_bytes(raw).min(i64::from(i32::max_value())).max(-1);
                        return;
                    }
                }
            }
            for x in a {
                walk(x, names, out);
            }
        }
    }
    walk(&j, &names, &mut out);
    out
}

fn range(r: &mut Rng, top: u32) -> (u32, u32) {
    let a = r.below(top as usize) as u32;
    let b = r.below(top as usize) as u32;
    match r.below(4) {
        0 => (a, a),
        1 => (0, top - 1),
        _ => (a.min(b), a.max(b)),
    }
}

pub fn many(a: &Args) {
    let profile = a.str("--profile", "P01");
    let n = a.num("--n", 40) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(60));
    let mut out = Out::new(&path);
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(131).wrapping_add(i as u64) ^ 0x4D41);
        verif::set_shards(*r.pick(&[0usize, 1, 64]));
        let mut s = Sys {
            hop: Hop::new(),
            base: *r.pick(&[0u32, 1, 250, 65500, 0x7fff_ff00, 0xffff_ff80]),
            fill: *r.pick(&[0usize, 1, 7, 28, 60, 124, 251, 252, 300, 1020, 4092]),
            last: r.pct(50),
            chans: vec![],
            latest: HashMap::new(),
            added: vec![],
        };
        // Many sessions with few keys, few with many, or some of both.
        let (ns, nk) = *r.pick(&[(700u32, 1u32), (300, 3), (40, 20), (3, 300), (1, 900), (2, 600)]);
        let len = if profile == "M01" { 12 } else { 14 + r.below(10) };
        let mut evs: Vec<String> = vec![];
        let mut cells = 0u64;
        for step in 0..len {
            let f = r.below(2);
            let mut e = Ev { c: 0, f, x: (0, 0), y: (0, 0), kind: 0 };
            e.c = match &profile[..] {
                "P01" => match r.below(16) {
                    _ if step == 0 => 310,
                    0..=4 => 310,
                    5..=7 => 311,
                    8..=11 => 312,
                    12 | 13 => 313,
                    _ => 314,
                },
                "N01" => *r.pick(&[317u32, 317, 318, 318]),
                _ => *r.pick(&[315u32, 315, 315, 316, 316, 317, 318, 319]),
            };
            match e.c {
                310..=313 => {
                    e.x = if step == 0 { (0, ns - 1) } else { range(&mut r, ns) };
                    e.y = if step == 0 { (0, nk - 1) } else { range(&mut r, nk) };
                }
                314 if s.chans.is_empty() => continue,
                314 => e.x = (1, s.chans.len() as u32),
                315 => {
                    e.kind = r.below(7);
                    e.x.1 = match (i, step) {
                        (0, 0) => 66_000,
                        _ => *r.pick(&[1u32, 100, 255, 256, 300, 1000, 5000]),
                    };
                }
                317 => e.x.1 = *r.pick(&[1u32, 2, 30, 120, 260, 400]),
                318 if s.added.is_empty() => continue,
                318 => {
                    let (a, b) = range(&mut r, s.added.len() as u32);
                    e.x = (a + 1, b + 1);
                }
                _ => {}
            }
            if i == 0 && step == 0 && profile == "M01" {
                e.c = 315;
                e.x = (0, 66_000);
            }
            // What was subscribed to has to be told in the end.
            cells += u64::from(e.x.1 - e.x.0 + 1);
            let base = s.base as i32;
            let got = watched(
                || format!("{{\"id\":{},\"base\":{},\"ev\":[{}]}}", i, base, evs.join(",")),
                || guarded(|| apply(&mut s, &e)),
            );
            let (k, o) = match got {
                Ok(o) => ("0".into(), J::A(o.into_iter().map(J::N).collect()).s()),
                Err(m) => (format!("2,\"m\":{}", esc(&m)), "[]".into()),
            };
            let broke = k != "0";
            evs.push(format!(
                "{{\"c\":{},\"f\":{},\"x0\":{},\"x1\":{},\"y0\":{},\"y1\":{},\"kind\":{},\"k\":{},\"o\":{}}}",
                e.c, e.f, e.x.0, e.x.1, e.y.0, e.y.1, e.kind, k, o
            ));
            if broke {
                break;
            }
        }
        let _ = cells;
        if profile == "P01" {
            for f in 0..2 {
                let e = Ev { c: 312, f, x: (0, ns - 1), y: (0, nk - 1), kind: 0 };
                if let Ok(o) = guarded(|| apply(&mut s, &e)) {
                    evs.push(format!(
                        "{{\"c\":312,\"f\":{},\"x0\":0,\"x1\":{},\"y0\":0,\"y1\":{},\"kind\":0,\"k\":0,\"o\":{}}}",
                        f, ns - 1, nk - 1, J::A(o.into_iter().map(J::N).collect()).s()
                    ));
                } else {
                    evs.push(format!("{{\"c\":312,\"f\":{},\"x0\":0,\"x1\":0,\"y0\":0,\"y1\":0,\"kind\":0,\"k\":2,\"o\":[]}}", f));
                }
            }
        }
        out.line(&format!(
            "{{\"base\":{},\"fill\":{},\"last\":{},\"ev\":[{}]}}",
            s.base as i32, s.fill, s.last as u8, evs.join(",")
        ));
    }
    println!("{}", out.done());
}
