//! The engine as a library: its store used directly, between requests.
use crate::{
    ops::{entries, event, load, mix, reserved, Gen},
    util::*,
    val::{run, snap_s, snapshot, Res, Val},
};
use dashmap::{DashMap, DashSet};
use hop_engine::{
    state::{KeyType, State, Value},
    Hop,
};
use std::{convert::TryFrom, io::BufRead, io::BufReader};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Gave {
    p: Vec<Val>,
    m: Vec<Vec<i64>>,
}

fn fresh(t: u8) -> Value {
    match t {
        0 => Value::bytes(),
        1 => Value::boolean(),
        2 => Value::float(),
        3 => Value::integer(),
        4 => Value::string(),
        5 => Value::list(),
        6 => Value::map(),
        _ => Value::set(),
    }
}

/// The value, by the conversions from plain data.
fn converted(v: Value) -> Value {
    match v {
        Value::Bytes(x) => Value::from(x),
        Value::Boolean(x) => Value::from(x),
        Value::Float(x) => Value::from(x),
        Value::Integer(x) => Value::from(x),
        Value::String(x) => Value::from(x),
        Value::List(x) => Value::from(x),
        Value::Map(x) => Value::from(x),
        Value::Set(x) => Value::from(x),
    }
}

fn is(v: &Value) -> Vec<i64> {
    [v.is_bytes(), v.is_boolean(), v.is_float(), v.is_integer(), v.is_string(), v.is_list(), v.is_map(), v.is_set()]
        .iter()
        .map(|b| i64::from(*b))
        .collect()
}

/// What each view gives, as values.
fn seen(v: &Value) -> Vec<Option<Val>> {
    let list = |a: &[Vec<u8>]| Val::of(&Value::List(a.to_vec()));
    vec![
        v.as_bytes_ref().map(|x| Val::of(&Value::Bytes(x.to_vec()))),
        v.as_boolean_ref().map(|x| Val::of(&Value::Boolean(*x))),
        v.as_float_ref().map(|x| Val::of(&Value::Float(*x))),
        v.as_integer_ref().map(|x| Val::of(&Value::Integer(*x))),
        v.as_string_ref().map(|x| Val::of(&Value::String(x.to_owned()))),
        v.as_list_ref().map(list),
        v.as_map_ref().map(|x| Val::of(&Value::Map(x.clone()))),
        v.as_set_ref().map(|x| Val::of(&Value::Set(x.clone()))),
    ]
}

fn seen_mut(v: &mut Value) -> Vec<Option<Val>> {
    vec![
        v.as_bytes_mut().map(|x| Val::of(&Value::Bytes(x.clone()))),
        v.as_boolean_mut().map(|x| Val::of(&Value::Boolean(*x))),
        v.as_float_mut().map(|x| Val::of(&Value::Float(*x))),
        v.as_integer_mut().map(|x| Val::of(&Value::Integer(*x))),
        v.as_string_mut().map(|x| Val::of(&Value::String(x.clone()))),
        v.as_list_mut().map(|x| Val::of(&Value::List(x.clone()))),
        v.as_map_mut().map(|x| Val::of(&Value::Map(x.clone()))),
        v.as_set_mut().map(|x| Val::of(&Value::Set(x.clone()))),
    ]
}

/// Which views there are; one that gives something else than the value counts
/// as 2.
fn views(of: &Val, all: Vec<Option<Val>>) -> Vec<i64> {
    all.iter().map(|x| x.as_ref().map_or(0, |x| if x == of { 1 } else { 2 })).collect()
}

/// Sets a value to `to` through the view of its type, if there is that view.
fn edit(v: &mut Value, to: Value) -> bool {
    macro_rules! put {
        ($view:ident, $x:expr) => {
            match v.$view() {
                Some(place) => {
                    *place = $x;
                    true
                }
                None => false,
            }
        };
    }
    match to {
        Value::Bytes(x) => put!(as_bytes_mut, x),
        Value::Boolean(x) => put!(as_boolean_mut, x),
        Value::Float(x) => put!(as_float_mut, x),
        Value::Integer(x) => put!(as_integer_mut, x),
        Value::String(x) => put!(as_string_mut, x),
        Value::List(x) => put!(as_list_mut, x),
        Value::Map(x) => put!(as_map_mut, x),
        Value::Set(x) => put!(as_set_mut, x),
    }
}

/// Does one of the direct uses; see Embed.tla.
fn direct(s: &State, c: u8, n: &[u8], x: &Val) -> Gave {
    let mut g = Gave { p: vec![], m: vec![] };
    match c {
        200 => g.p.extend(s.insert(n.to_vec(), converted(x.value())).map(|v| Val::of(&v))),
        201 => {
            if let Some((k, v)) = s.remove(n) {
                g.p.push(Val::of(&v));
                if k != n {
                    g.m.push(vec![]);
                }
            }
        }
        202 => g.m.push(vec![i64::from(s.contains_key(n))]),
        203 => g.m.push(s.key_type(n).map(|t| t as u8 as i64).into_iter().collect()),
        204 => {
            let mut sm = vec![];
            if let Some(mut r) = s.key_mut(n) {
                sm = seen_mut(r.value_mut());
            }
            if let Some(r) = s.key_ref(n) {
                let v = Val::of(r.value());
                g.m = vec![
                    vec![r.value().kind() as u8 as i64],
                    is(r.value()),
                    views(&v, seen(r.value())),
                    views(&v, sm),
                ];
                g.p.push(v);
                if r.key() != n {
                    g.m.push(vec![]);
                }
            } else if !sm.is_empty() {
                g.m.push(vec![]);
            }
        }
        205 => {
            if let Some(mut r) = s.key_mut(n) {
                let old = Val::of(r.value());
                if edit(r.value_mut(), x.value()) {
                    g.p.push(old);
                }
            }
        }
        206 => {
            if let Some(mut r) = s.key_mut(n) {
                g.p.push(Val::of(r.value()));
                *r.value_mut() = x.value();
            }
        }
        207 => {
            let calls = std::cell::Cell::new(0);
            let r = s.key_or_insert_with(n, || {
                calls.set(calls.get() + 1);
                fresh(x.t)
            });
            g.p.push(Val::of(r.value()));
            g.m.push(vec![calls.get()]);
        }
        _ => {
            let b = x.v.to_bytes()[0];
            g.m.push(KeyType::try_from(b).map(|t| t as u8 as i64).into_iter().collect());
        }
    }
    g
}

fn p_s(p: &[Val]) -> String {
    let v: Vec<String> = p.iter().map(Val::s).collect();
    format!("[{}]", v.join(","))
}

fn m_s(m: &[Vec<i64>]) -> String {
    format!("{:?}", m)
}

fn some_value(g: &mut Gen, t: u8) -> Val {
    let bytes = |g: &mut Gen| g.arg(0);
    let eight = |mut b: Vec<u8>| {
        b.resize(8, 0);
        b
    };
    let raw = match t {
        0 => Value::Bytes(bytes(g)),
        1 => Value::Boolean(g.r.pct(50)),
        2 | 3 => {
            let mut a = [0; 8];
            a.copy_from_slice(&eight(g.arg(t)));
            if t == 2 { Value::Float(f64::from_be_bytes(a)) } else { Value::Integer(i64::from_be_bytes(a)) }
        }
        4 => Value::String(String::from_utf8_lossy(&g.arg(4)).into_owned()),
        5 => {
            let n = g.r.below(4);
            Value::List((0..n).map(|_| bytes(g)).collect())
        }
        6 => {
            let m = DashMap::new();
            for _ in 0..g.r.below(4) {
                m.insert(bytes(g), bytes(g));
            }
            Value::Map(m)
        }
        _ => {
            let s = DashSet::new();
            for _ in 0..g.r.below(4) {
                s.insert(bytes(g));
            }
            Value::Set(s)
        }
    };
    Val::of(&raw)
}

/// K06: random uses through several handles, mixed with requests.
pub fn embed(a: &Args) {
    let n = a.num("--n", 100) as usize;
    let len = a.num("--len", 24) as usize;
    let seed = a.num("--seed", 1);
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), std::time::Duration::from_secs(10));
    let mut out = Out::new(&path);
    for i in 0..n {
        let mut g = Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64 * 31));
        let keys: Vec<Vec<u8>> = vec![b"a".to_vec(), b"b".to_vec(), g.r.pick(&[&b"\xff"[..], b"a\x00", b"__hop__"]).to_vec()];
        let built = g.r.pct(50);
        let mut hops = vec![if built {
            let mut b = Hop::builder();
            b.sessions_active_max(g.r.below(5)).pubsub_enabled(g.r.pct(50));
            b.build()
        } else {
            Hop::default()
        }];
        let mut states: Vec<State> = vec![hops[0].state().clone()];
        let mut evs: Vec<String> = vec![];
        for _ in 0..len {
            if g.r.pct(10) {
                let h = g.r.pick(&hops).clone();
                hops.push(h);
            }
            if g.r.pct(10) {
                let s = if g.r.pct(50) { g.r.pick(&states).clone() } else { g.r.pick(&hops).state().clone() };
                states.push(s);
            }
            if hops.len() > 1 && g.r.pct(8) {
                let j = g.r.below(hops.len());
                hops.swap_remove(j);
            }
            if states.len() > 1 && g.r.pct(8) {
                let j = g.r.below(states.len());
                states.swap_remove(j);
            }
            let hop = g.r.pick(&hops).clone();
            if g.r.pct(45) {
                let kinds = snapshot(&hop, &keys);
                let c = mix("K04", &mut g);
                let mut r = g.req(c, &keys, &kinds, false);
                // Counters count more than this history's requests only.
                if r.c == 101 || reserved(&r) {
                    continue;
                }
                if r.c < 100 {
                    let naming = if r.c == 13 || r.c == 14 { r.a.len() } else if r.c == 15 { 2 } else { 1 };
                    for x in r.a.iter_mut().take(naming) {
                        if !keys.contains(x) {
                            *x = keys[0].clone();
                        }
                    }
                }
                let line = |evs: &[String]| format!("{{\"id\":{},\"ev\":[{}]}}", i, evs.join(","));
                let res = watched(|| line(&evs), || run(&hop, &r, &[7]));
                let snap = snapshot(&hop, &keys);
                evs.push(event(&r, &res, &snap));
                if let Res::Panic(_) = res {
                    break;
                }
            } else {
                let s = if g.r.pct(60) { g.r.pick(&states).clone() } else { hop.state().clone() };
                let c = 200 + g.r.below(9) as u8;
                let key = g.r.pick(&keys).clone();
                let t = match s.key_type(&key) {
                    Some(t) if g.r.pct(55) => t as u8,
                    _ => g.r.below(8) as u8,
                };
                let x = if c == 208 {
                    Val { t: 0, v: J::bytes(&[*g.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 255])]) }
                } else {
                    some_value(&mut g, t)
                };
                let line = |evs: &[String]| format!("{{\"id\":{},\"ev\":[{}]}}", i, evs.join(","));
                let got = watched(|| line(&evs), || guarded(|| direct(&s, c, &key, &x)));
                let up = got.is_ok() as u8;
                let got = got.unwrap_or(Gave { p: vec![], m: vec![] });
                let snap = guarded(|| snapshot(&hop, &keys)).unwrap_or_default();
                evs.push(format!(
                    "{{\"c\":{},\"n\":{},\"x\":{},\"p\":{},\"m\":{},\"up\":{},\"s\":{}}}",
                    c, jb(&key), x.s(), p_s(&got.p), m_s(&got.m), up, snap_s(&snap)
                ));
                if up == 0 {
                    break;
                }
            }
        }
        out.line(&format!("{{\"id\":{},\"ev\":[{}]}}", i, evs.join(",")));
    }
    println!("{}", out.done());
}

/// Each line is [pre, [c, n, t, v], [[[t, v]], m], post], from TLC.
pub fn replay(a: &Args) {
    let input = BufReader::new(std::fs::File::open(a.str("--in", "")).unwrap());
    let keys = [b"a".to_vec(), b"b\x00".to_vec()];
    let (mut n, mut bad) = (0u64, 0u64);
    for line in input.lines() {
        let line = line.unwrap();
        let j = J::parse(&line);
        let j = j.arr();
        n += 1;
        let hop = Hop::new();
        load(&hop, &j[0]);
        let e = j[1].arr();
        let x = Val { t: e[2].num() as u8, v: e[3].clone() }.canonical();
        let r = j[2].arr();
        let want = Gave {
            p: r[0].arr().iter().map(|v| Val { t: v.arr()[0].num() as u8, v: v.arr()[1].clone() }.canonical()).collect(),
            m: r[1].arr().iter().map(|v| v.arr().iter().map(J::num).collect()).collect(),
        };
        let got = guarded(|| direct(hop.state(), e[0].num() as u8, &e[1].to_bytes(), &x));
        let mut now = guarded(|| snapshot(&hop, &keys)).unwrap_or_default();
        now.sort();
        if got.as_ref() != Ok(&want) || now != entries(&j[3]) {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {{\"c\":{},\"line\":{},\"got\":{},\"now\":{}}}", e[0].num(), line, esc(&format!("{:?}", got)), snap_s(&now));
            }
        }
    }
    println!("REPLAYED {} {}", n, bad);
}

/// K06: what a builder was told, and what comes of it: three histories each.
pub fn settings(a: &Args) {
    let mut out = Out::new(&a.str("--out", "/dev/null"));
    let maxima = [None, Some(0usize), Some(1), Some(3), Some(999), Some(1 << 16), Some(u32::MAX as usize), Some(1 << 40), Some(usize::MAX)];
    let ways = maxima.len() * 3;
    for way in 0..ways * 2 {
        let p = [None, Some(false), Some(true)][way % 3];
        let m = maxima[way / 3 % maxima.len()];
        // A setting given twice is as given last, and a builder can be kept and
        // built from a copy.
        let twice = way >= ways;
        {
            let mut b = Hop::builder();
            if let (Some(p), true) = (p, twice) {
                b.pubsub_enabled(!p);
            }
            if let (Some(m), true) = (m, twice) {
                b.sessions_active_max(m / 2 + 1);
            }
            if let Some(p) = p {
                b.pubsub_enabled(p);
            }
            if let Some(m) = m {
                b.sessions_active_max(m);
            }
            if twice {
                let kept = b.clone();
                b.pubsub_enabled(p == Some(false)).sessions_active_max(2);
                drop(b.build());
                b = kept;
            }
            let hop = b.build();
            let again = hop.clone();
            let c = again.config();
            let mut added = 0;
            for i in 0..5u8 {
                let mut s = hop.sessions().clone();
                if guarded(move || drop(s.add([i; 32]))).is_ok() {
                    added += 1;
                }
            }
            let id = hop_engine::session::SessionId::verif_new(1);
            let sub = guarded(|| hop.pubsub().subscribe(b"k".to_vec(), id).is_some());
            let said = c.pubsub_enabled() == p.unwrap_or(true) && c.sessions_active_max() == m.unwrap_or(usize::MAX);
            for (c, got) in [(209, said as i64), (210, added), (211, sub.map_or(2, |b| b as i64))].iter() {
                out.line(&format!(
                    "{{\"id\":0,\"ev\":[{{\"c\":{},\"n\":[{},{}],\"x\":{{\"t\":0,\"v\":[]}},\"p\":[],\"m\":[[{}]],\"up\":1,\"s\":[]}}]}}",
                    c, p.map_or(2, |p| p as u8), m.unwrap_or(1000).min(1000), got
                ));
            }
        }
    }
    println!("{}", out.done());
}
