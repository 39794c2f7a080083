//! The parsers and encoders of requests and responses.
use crate::{ops::*, util::*, val::*};
use hop_engine::state::Value;
use hop_engine::{
    command::{
        request::{Context, ParseError, RequestBuilder, RequestBuilderError},
        response::{Context as RespContext, Instruction, ParseError as RespError, Response},
        CommandId, DispatchError, Request,
    },
    state::KeyType,
};
use std::{
    convert::TryFrom,
    io::{BufRead, BufReader},
    ops::Bound,
    time::Duration,
};

fn perr(e: ParseError) -> u8 {
    match e {
        ParseError::CommandIdInvalid => 0,
        ParseError::KeyTypeInvalid => 1,
    }
}

/// Everything a request says of itself; `buf` is what it was parsed from.
fn saw(r: &Request<'_>, buf: &[u8]) -> (String, usize) {
    let n = r.as_bytes().len();
    let raw = n <= buf.len() && r.as_bytes() == &buf[..n];
    let cnt = r.arg_count();
    let mut a = vec![];
    for i in 0..cnt {
        a.push(match r.arg(i) {
            Some(b) => J::bytes(b),
            None => J::A(vec![J::N(-1)]),
        });
    }
    let past = r.arg(cnt).is_none() && r.arg(cnt + 1).is_none();
    let mut ranges = vec![];
    for from in 0..3 {
        if let Some(mut it) = r.args(from..) {
            let mut lens = vec![J::N(it.len() as i64)];
            let mut items = vec![];
            while let Some(x) = it.next() {
                items.push(J::bytes(x));
                lens.push(J::N(it.len() as i64));
                if items.len() > 300 {
                    break;
                }
            }
            if it.next().is_some() {
                items.push(J::A(vec![J::N(-2)]));
            }
            ranges.push(J::A(vec![J::A(lens), J::A(items)]));
        }
    }
    let key: Vec<J> = r.key().map(J::bytes).into_iter().collect();
    (
        format!(
            "{{\"k\":2,\"c\":{},\"t\":{},\"a\":{},\"n\":{},\"raw\":{},\"cnt\":{},\"past\":{},\"rg\":{},\"ky\":{}}}",
            r.command_id() as u8,
            r.key_type().map(|k| k as i64).unwrap_or(-1),
            J::A(a).s(),
            n,
            raw as u8,
            cnt,
            past as u8,
            J::A(ranges).s(),
            J::A(key).s()
        ),
        n,
    )
}

/// What feeding a buffer came to: what is recorded, and how much of the
/// buffer is used up (`None`: nothing yet).
fn feed(ctx: &mut Context, buf: &[u8]) -> (String, Option<usize>) {
    match guarded(|| match ctx.feed(buf) {
        Ok(None) => ("{\"k\":0}".to_owned(), None),
        Ok(Some(r)) => {
            let (s, n) = saw(&r, buf);
            (s, Some(n))
        }
        Err(e) => (format!("{{\"k\":1,\"e\":{}}}", perr(e)), Some(buf.len())),
    }) {
        Ok(x) => x,
        Err(m) => (format!("{{\"k\":3,\"m\":{}}}", esc(&m)), Some(usize::max_value())),
    }
}

/// Feeds a stream as a server does, with the given chunk ends, to one context.
fn serve(stream: &[u8], ends: &[usize], hang: &dyn Fn(&str) -> String) -> String {
    let mut ctx = Context::new();
    let mut ev = String::new();
    let mut s = 0;
    'all: for &e in ends {
        loop {
            let (o, used) = {
                let buf = &stream[s..e];
                let at = format!("{{\"s\":{},\"e\":{},\"o\":{{\"k\":4}}}}", s, e);
                watched(|| hang(&at), || feed(&mut ctx, buf))
            };
            if !ev.is_empty() {
                ev.push(',');
            }
            ev.push_str(&format!("{{\"s\":{},\"e\":{},\"o\":{}}}", s, e, o));
            match used {
                None => break,
                Some(n) if n == 0 || n > e - s => break 'all,
                Some(n) => s += n,
            }
            if s == e {
                break;
            }
        }
    }
    ev
}

fn cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match r.below(4) {
        0 => (1..=n).collect(),
        1 => vec![n],
        2 => {
            let mut v: Vec<usize> = (0..=r.below(4)).map(|_| r.below(n + 1)).collect();
            v.push(n);
            v
        }
        _ => {
            let mut v: Vec<usize> = (0..=n / 3).map(|_| r.below(n + 1)).collect();
            v.push(n);
            v
        }
    };
    v.sort();
    v
}

fn gen_req(g: &mut Gen, max: usize) -> Req {
    let c = *g.r.pick(&COMMANDS);
    let k = if g.r.pct(50) { Some(g.r.below(8) as u8) } else { None };
    let n = if c == 101 {
        0
    } else {
        match g.r.below(12) {
            0 => 0,
            1 => g.r.below(max + 1),
            _ => 1 + g.r.below(4),
        }
    };
    let small = n > 20;
    let a = (0..n)
        .map(|_| {
            let kind = g.r.below(8) as u8;
            if g.r.pct(12) {
                vec![]
            } else if small {
                g.r.bytes(1)
            } else if g.r.pct(5) {
                let l = *g.r.pick(&[127, 128, 255, 256, 257, 300]);
                g.r.bytes(l)
            } else {
                g.arg(kind)
            }
        })
        .collect();
    Req::new(c, k, a)
}

/// The bytes the builder makes of a request; those of the format where it
/// can't make it (empty arguments).
fn build_bytes(q: &Req) -> Vec<u8> {
    if q.a.iter().any(|x| x.is_empty()) {
        return q.encode();
    }
    let c = CommandId::try_from(q.c).unwrap();
    let mut b = match q.k {
        None => RequestBuilder::new(c),
        Some(k) => RequestBuilder::new_with_key_type(c, KeyType::try_from(k).unwrap()),
    };
    for x in &q.a {
        let _ = b.bytes(x.clone());
    }
    b.into_request().into_bytes().into_owned()
}

fn made_s(made: &[Req]) -> String {
    made.iter().map(|q| format!("{{{}}}", q.s())).collect::<Vec<_>>().join(",")
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(6) {
            0 if n > 0 => {
                let i = r.below(n);
                b[i] = r.next() as u8;
            }
            1 if n > 0 => {
                let i = r.below(n);
                b.remove(i);
            }
            2 => {
                let i = r.below(n + 1);
                let x = *r.pick(&[0u8, 1, 2, 7, 8, 9, 100, 101, 127, 128, 228, 229, 255]);
                b.insert(i, x);
            }
            3 if n > 0 => b.truncate(r.below(n)),
            4 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            _ => {
                let i = r.below(n + 1);
                for x in r.bytes(3) {
                    b.insert(i, x);
                }
            }
        }
    }
}

pub fn wire(a: &Args) {
    let out = a.str("--out", "");
    watchdog(out.clone(), Duration::from_secs(20));
    let mode = a.str("--mode", "req");
    match mode.as_str() {
        "resp" | "badresp" => responses(a, mode == "badresp", Out::new(&out)),
        "wide" => wide(Out::new(&out)),
        "build" => builds(a, Out::new(&out)),
        _ => requests(a, &mode, Out::new(&out)),
    }
}

fn requests(a: &Args, mode: &str, mut out: Out) {
    let seed = a.num("--seed", 1);
    let mut g = Gen::new(seed ^ 0x77);
    for i in 0..a.num("--n", 100) {
        let mut stream = vec![];
        let mut made = vec![];
        match mode {
            "req" => {
                let q = if i < 512 {
                    // Every command and type, each with a few argument counts.
                    let c = COMMANDS[i as usize % 16];
                    let k = (i as usize / 16) % 9;
                    let n = if c == 101 { 0 } else { (i as usize / 144) % 4 };
                    let k = if k == 8 { None } else { Some(k as u8) };
                    let a = (0..n).map(|j| { let l = 1 + (j + i as usize) % 3; g.r.bytes(l) }).collect();
                    Req::new(c, k, a)
                } else {
                    gen_req(&mut g, 255)
                };
                stream.extend(build_bytes(&q));
                made.push(q);
            }
            "pipe" => {
                for _ in 0..2 + g.r.below(5) {
                    let q = gen_req(&mut g, 12);
                    stream.extend(build_bytes(&q));
                    made.push(q);
                }
                if g.r.pct(40) {
                    // An unfinished one last.
                    let mut b = gen_req(&mut g, 3).encode();
                    b.truncate(g.r.below(b.len()));
                    stream.extend(b);
                }
            }
            _ => {
                for _ in 0..1 + g.r.below(2) {
                    let mut b = if g.r.pct(60) {
                        gen_req(&mut g, 6).encode()
                    } else {
                        let n = g.r.below(14);
                        g.r.bytes(n)
                    };
                    mutate(&mut g.r, &mut b);
                    stream.extend(b);
                }
                stream.extend(gen_req(&mut g, 3).encode());
            }
        }
        let ends = match mode {
            // Every prefix.
            "req" if i % 2 == 0 && stream.len() < 200 => (0..=stream.len()).collect(),
            _ => cuts(&mut g.r, stream.len()),
        };
        let head = format!("{{\"shape\":0,\"stream\":{},\"made\":[{}],\"ev\":[", jb(&stream), made_s(&made));
        let ev = serve(&stream, &ends, &|e| format!("{}{}]}}", head, e));
        out.line(&format!("{}{}]}}", head, ev));
    }
    if mode == "req" {
        for ls in vec![vec![65535], vec![65536], vec![1, 65536, 1], vec![70000, 70001], vec![1; 255], vec![300; 255], vec![1 << 20], vec![(1 << 24) - 1, 9], vec![1 << 24], vec![2, (1 << 24) + 300]] {
            for &k in &[None, Some(5u8)] {
                let q = Req::new(100, k, ls.iter().map(|n| if *n > 1 << 20 { vec![*n as u8; *n] } else { g.r.bytes(*n) }).collect());
                let bytes = build_bytes(&q);
                let mut ctx = Context::new();
                let mut ends: Vec<usize> = (0..60).map(|_| g.r.below(bytes.len())).collect();
                ends.extend((0..3).map(|x| bytes.len() - x));
                ends.sort();
                let ev: Vec<String> = ends
                    .iter()
                    .map(|&e| {
                        let o = guarded(|| match ctx.feed(&bytes[..e]) {
                            Ok(None) => "{\"k\":0}".to_owned(),
                            Err(_) => "{\"k\":1}".to_owned(),
                            Ok(Some(r)) => {
                                let ls: Vec<J> =
                                    (0..r.arg_count()).map(|i| J::N(r.arg(i).map(|x| x.len() as i64).unwrap_or(-1))).collect();
                                let same = (0..r.arg_count()).all(|i| q.a.get(i).map(|x| x.as_slice()) == r.arg(i));
                                format!(
                                    "{{\"k\":2,\"n\":{},\"ls\":{},\"same\":{}}}",
                                    r.as_bytes().len(),
                                    J::A(ls).s(),
                                    same as u8
                                )
                            }
                        })
                        .unwrap_or_else(|_| "{\"k\":3}".to_owned());
                        format!("{{\"e\":{},\"o\":{}}}", e, o)
                    })
                    .collect();
                let lens: Vec<J> = ls.iter().map(|n| J::N(*n as i64)).collect();
                out.line(&format!(
                    "{{\"shape\":1,\"c\":100,\"t\":{},\"ls\":{},\"len\":{},\"ev\":[{}]}}",
                    k.map(i64::from).unwrap_or(-1),
                    J::A(lens).s(),
                    bytes.len(),
                    ev.join(",")
                ));
            }
        }
    }
    println!("{}", out.done());
}

/// Replays lines [bytes, outcome] of WireSteps: the bytes in one piece, and
/// byte by byte; and one context is reused for all of them.
pub fn steps(a: &Args) {
    let f = std::fs::File::open(a.str("--in", "")).expect("input");
    let (mut n, mut bad) = (0u64, 0u64);
    let mut ctx = Context::new();
    for line in BufReader::new(f).lines() {
        let line = line.unwrap();
        let j = J::parse(&line);
        let b = j.arr()[0].to_bytes();
        let w = j.arr()[1].arr();
        let get = |r: Result<Option<Request<'_>>, ParseError>| match r {
            Ok(None) => vec![J::N(0)],
            Err(e) => vec![J::N(1), J::N(perr(e) as i64)],
            Ok(Some(r)) => vec![
                J::N(2),
                J::N(r.command_id() as i64),
                J::N(r.key_type().map(|k| k as i64).unwrap_or(-1)),
                J::N(r.as_bytes().len() as i64),
                J::A((0..r.arg_count()).map(|i| r.arg(i).map(J::bytes).unwrap_or(J::N(-1))).collect()),
            ],
        };
        // The same parser as for the last line, which an unfinished request
        // would still be in.
        let whole = guarded(|| get(ctx.feed(&b)));
        if !matches!(&whole, Ok(o) if o[0] != J::N(0)) {
            ctx = Context::new();
        }
        let parts = guarded(|| {
            let mut c = Context::new();
            let mut last = vec![J::N(0)];
            for e in 0..=b.len() {
                last = get(c.feed(&b[..e]));
                if last[0] != J::N(0) {
                    break;
                }
            }
            last
        });
        // Both errors are right when neither the command nor the type is known.
        let ok = |o: &Result<Vec<J>, String>| match o {
            Ok(o) => {
                o.as_slice() == w
                    || (o[0] == J::N(1)
                        && w[0] == J::N(1)
                        && b.len() >= 2
                        && CommandId::try_from(b[0] & 0x7f).is_err()
                        && b[0] > 127
                        && KeyType::try_from(b[1]).is_err())
            }
            Err(_) => false,
        };
        n += 1;
        if !ok(&whole) || !ok(&parts) {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {{\"b\":{:?},\"want\":{},\"whole\":{},\"parts\":{}}}", b, J::A(w.to_vec()).s(),
                    esc(&format!("{:?}", whole)), esc(&format!("{:?}", parts)));
            }
        }
    }
    println!("REPLAYED {} {}", n, bad);
}

// ------------------------------------------------------------------ responses

fn small(g: &mut Gen, n: usize) -> Vec<u8> {
    let l = g.r.below(n);
    crate::ops::filled(&mut g.r, l)
}

fn gen_val(g: &mut Gen) -> Val {
    let t = g.r.below(8) as u8;
    let n = match g.r.below(6) {
        0 => 0,
        1 => 1,
        2 => 30,
        _ => g.r.below(5),
    };
    let v = match t {
        1 => J::bytes(&[g.r.below(2) as u8]),
        2 | 3 => {
            let mut b = g.arg(t);
            b.resize(8, 1);
            J::bytes(&b)
        }
        4 => {
            let b = g.arg(4);
            match String::from_utf8(b) {
                Ok(s) => J::bytes(s.as_bytes()),
                Err(_) => J::bytes("\u{20ac}".as_bytes()),
            }
        }
        0 => J::bytes(&small(g, 40)),
        5 => J::A((0..n).map(|_| J::bytes(&small(g, 6))).collect()),
        7 => J::A((0..n).map(|_| J::bytes(&small(g, 6))).collect()),
        _ => J::A((0..n).map(|_| J::A(vec![J::bytes(&small(g, 6)), J::bytes(&small(g, 6))])).collect()),
    };
    let raw = Val { t, v };
    // Through the store's own types, so repetitions are gone.
    Val::of(&raw.value())
}

#[derive(Clone)]
enum Made {
    V(Val),
    D(u8),
    P(u8),
}

impl Made {
    fn bytes(&self, whole: bool) -> Vec<u8> {
        let r = match self {
            Made::V(v) => Response::Value(v.value()),
            Made::D(e) => Response::from(DispatchError::try_from(*e).unwrap()),
            Made::P(e) => Response::from(ParseError::try_from(*e).unwrap()),
        };
        if whole {
            r.as_bytes()
        } else {
            let mut b = vec![1, 2, 3];
            r.copy_to(&mut b);
            b.split_off(3)
        }
    }
}

fn rerr(e: RespError) -> u8 {
    match e {
        RespError::DispatchErrorInvalid => 0,
        RespError::ParseErrorInvalid => 1,
        RespError::PayloadTooLarge => 2,
        RespError::ResponseTypeInvalid => 3,
        RespError::StringInvalid => 4,
    }
}

/// 0 more (asking for n), 1 decoded, 2 refused, 3 panicked
fn rfeed(ctx: &mut RespContext, buf: &[u8]) -> (String, u8, usize) {
    match guarded(|| match ctx.feed(buf) {
        Ok(Instruction::ReadBytes(n)) => (format!("{{\"k\":0,\"n\":{}}}", n.min(1 << 30)), 0, n),
        Ok(Instruction::Concluded(Response::Value(v))) => (format!("{{\"k\":1,\"v\":{}}}", Val::of(&v).s()), 1, 0),
        Ok(Instruction::Concluded(Response::DispatchError(e))) => (format!("{{\"k\":2,\"e\":{}}}", derr(e)), 1, 0),
        Ok(Instruction::Concluded(Response::ParseError(e))) => (format!("{{\"k\":3,\"e\":{}}}", perr(e)), 1, 0),
        Err(e) => (format!("{{\"k\":4,\"e\":{}}}", rerr(e)), 2, 0),
    }) {
        Ok(x) => x,
        Err(m) => (format!("{{\"k\":9,\"m\":{}}}", esc(&m)), 3, 0),
    }
}

fn bad_response(g: &mut Gen) -> Vec<u8> {
    let mut b = match g.r.below(10) {
        0..=4 => Made::V(gen_val(g)).bytes(true),
        5 => vec![0, 0, 0, 2, *g.r.pick(&[8, 9]), g.r.below(12) as u8],
        6 => {
            let t = g.r.below(10) as u8;
            let n = g.r.below(9);
            let mut b = vec![0, 0, 0, n as u8 + 1, t];
            b.extend((0..n).map(|_| g.r.below(4) as u8));
            b
        }
        7 => {
            // A string that isn't one.
            let s = g.arg(4);
            let mut b = (s.len() as u32 + 5).to_be_bytes().to_vec();
            b.push(7);
            b.extend_from_slice(&(s.len() as u32).to_be_bytes());
            b.extend(s);
            b
        }
        8 => {
            // Says something twice.
            let t = *g.r.pick(&[5u8, 6]);
            let mut p = vec![t, 0, 2];
            for _ in 0..2 {
                if t == 5 {
                    p.extend_from_slice(&[1, 9, 0, 0, 0, 1]);
                    p.push(g.r.below(2) as u8);
                } else {
                    p.extend_from_slice(&[0, 1, 9]);
                }
            }
            let mut b = (p.len() as u32).to_be_bytes().to_vec();
            b.extend(p);
            b
        }
        _ => {
            let n = g.r.below(16);
            let mut b = vec![0, 0, 0, g.r.below(12) as u8];
            b.extend(g.r.bytes(n));
            b
        }
    };
    if g.r.pct(60) {
        mutate(&mut g.r, &mut b);
    }
    // Mostly a length that lets the rest be looked at.
    if g.r.pct(50) && b.len() >= 4 {
        let n = (b.len() - 4) as u32;
        let n = match g.r.below(4) {
            0 => n.saturating_sub(1 + g.r.below(4) as u32),
            1 => n + 1,
            _ => n,
        };
        b[..4].copy_from_slice(&n.to_be_bytes());
    }
    b
}

fn responses(a: &Args, bad: bool, mut out: Out) {
    let mut g = Gen::new(a.num("--seed", 1) ^ 0x3333);
    for i in 0..a.num("--n", 100) {
        let mut stream = vec![];
        let mut made = vec![];
        if bad {
            stream = bad_response(&mut g);
        } else {
            let k = if g.r.pct(50) { 1 } else { 1 + g.r.below(4) };
            for j in 0..k {
                let m = match g.r.below(8) {
                    _ if i < 8 && j == 0 => Made::D(i as u8),
                    _ if i < 10 && j == 0 => Made::P(i as u8 - 8),
                    0 => Made::D(g.r.below(8) as u8),
                    1 => Made::P(g.r.below(2) as u8),
                    _ => Made::V(gen_val(&mut g)),
                };
                let s = stream.len();
                let b = m.bytes(g.r.pct(50));
                stream.extend(b);
                made.push((m, s, stream.len()));
            }
        }
        let head = {
            let m: Vec<String> = made
                .iter()
                .map(|(m, s, e)| match m {
                    Made::V(v) => format!("{{\"k\":1,\"v\":{},\"s\":{},\"e\":{}}}", v.s(), s, e),
                    Made::D(c) => format!("{{\"k\":2,\"c\":{},\"s\":{},\"e\":{}}}", c, s, e),
                    Made::P(c) => format!("{{\"k\":3,\"c\":{},\"s\":{},\"e\":{}}}", c, s, e),
                })
                .collect();
            format!("{{\"shape\":0,\"stream\":{},\"made\":[{}],\"ev\":[", jb(&stream), m.join(","))
        };
        let mut ev = vec![];
        let mut ctx = RespContext::new();
        // Where responses start, one after another, for as long as they are whole.
        let mut s = 0;
        let mut which = 0;
        let mut ends = match i % 3 {
            0 if stream.len() < 150 => (0..=stream.len()).collect(),
            _ => cuts(&mut g.r, stream.len()),
        };
        ends.reverse();
        let obey = g.r.pct(30);
        let mut e = match ends.pop() {
            Some(e) => e,
            None => 0,
        };
        let mut fuel = 2000;
        loop {
            fuel -= 1;
            if fuel == 0 {
                break;
            }
            let (o, kind, n) = {
                let line = format!("{}{{\"s\":{},\"e\":{},\"o\":{{\"k\":8}}}}]}}", head, s, e);
                watched(|| line, || rfeed(&mut ctx, &stream[s..e]))
            };
            ev.push(format!("{{\"s\":{},\"e\":{},\"o\":{}}}", s, e, o));
            match kind {
                0 => {
                    if obey && n > 0 {
                        if e == stream.len() {
                            break;
                        }
                        e = (e.saturating_add(n)).min(stream.len());
                    } else {
                        match ends.pop() {
                            Some(x) => e = x.max(e),
                            None => break,
                        }
                    }
                }
                1 if !bad && which < made.len() => {
                    // The context goes on with the next one.
                    s = made[which].2;
                    which += 1;
                    if s >= stream.len() || s > e {
                        break;
                    }
                }
                _ => break,
            }
        }
        out.line(&format!("{}{}]}}", head, ev.join(",")));
    }
    println!("{}", out.done());
}

/// Values at the widths of the format.
fn wide(mut out: Out) {
    let mut r = Rng::new(5);
    let cases: Vec<(u8, usize, usize, usize)> = vec![
        (0, 1, 0, 65535), (0, 1, 0, 65536), (0, 1, 0, 70000), (0, 1, 0, 1 << 20),
        (4, 1, 0, 65535), (4, 1, 0, 65536), (4, 1, 0, 300000),
        (5, 1, 0, 65536), (5, 3, 0, 100000), (5, 255, 0, 2), (5, 256, 0, 2), (5, 257, 0, 1), (5, 65535, 0, 3), (5, 65535, 0, 0),
        (7, 1, 0, 65535), (7, 1, 0, 256), (7, 255, 0, 4), (7, 256, 0, 4), (7, 257, 0, 4), (7, 65535, 0, 4),
        (6, 1, 255, 1), (6, 1, 1, 65536), (6, 1, 255, 70000), (6, 255, 4, 1), (6, 256, 4, 1), (6, 257, 4, 0), (6, 65535, 4, 1),
    ];
    // A length of four bytes.
    for &n in &[(1usize << 24) - 1, 1 << 24, (1 << 24) + 300] {
        let text = "a".repeat(n);
        for &t in &[0u8, 4] {
            let mut bytes = vec![];
            if t == 0 {
                hop_engine::command::response::write_bytes(&mut bytes, text.as_bytes());
            } else {
                hop_engine::command::response::write_str(&mut bytes, &text);
            }
            let total = bytes.len();
            let mut ctx = RespContext::new();
            let (mut early, mut greedy) = (0, 0);
            for e in vec![0, 1, 4, 5, 7, 9, 65536, 70000, total / 2, total - 300, total - 1] {
                let (_, k, m) = rfeed(&mut ctx, &bytes[..e]);
                early |= (k != 0) as u8;
                greedy |= (k == 0 && (m == 0 || m > total - e)) as u8;
            }
            let same = guarded(|| match ctx.feed(&bytes) {
                Ok(Instruction::Concluded(Response::Value(Value::Bytes(v)))) => t == 0 && v == text.as_bytes(),
                Ok(Instruction::Concluded(Response::Value(Value::String(v)))) => t == 4 && v == text,
                _ => false,
            })
            .unwrap_or(false);
            out.line(&format!(
                "{{\"shape\":1,\"t\":{},\"count\":1,\"keylen\":0,\"itemlen\":{},\"same\":{},\"early\":{},\"greedy\":{},\"ev\":[]}}",
                t, n, same as u8, early, greedy
            ));
        }
    }
    for (t, count, keylen, itemlen) in cases {
        // Numbered, so they're all different.
        let item = |r: &mut Rng, i: usize, n: usize, number: bool| {
            let mut b = if n > 1000 { vec![i as u8; n] } else { r.bytes(n) };
            if number && n >= 4 {
                b[..4].copy_from_slice(&(i as u32).to_be_bytes());
            }
            b
        };
        let v = match t {
            0 => J::bytes(&r.bytes(itemlen)),
            4 => J::bytes(&vec![b'a'; itemlen]),
            5 => J::A((0..count).map(|i| J::bytes(&item(&mut r, i, itemlen, false))).collect()),
            7 => J::A((0..count).map(|i| J::bytes(&item(&mut r, i, itemlen, true))).collect()),
            _ => J::A(
                (0..count)
                    .map(|i| J::A(vec![J::bytes(&item(&mut r, i, keylen, true)), J::bytes(&item(&mut r, i, itemlen, false))]))
                    .collect(),
            ),
        };
        let val = Val { t, v }.canonical();
        let bytes = Made::V(val.clone()).bytes(true);
        let total = bytes.len();
        let mut ends: Vec<usize> = (0..40).map(|_| r.below(total)).collect();
        ends.extend((0..8).map(|x| x + 1));
        ends.extend((1..4).map(|x| total - x));
        ends.sort();
        let mut ctx = RespContext::new();
        let (mut early, mut greedy) = (0, 0);
        for e in ends {
            let (_, k, n) = rfeed(&mut ctx, &bytes[..e]);
            early |= (k != 0) as u8;
            greedy |= (k == 0 && (n == 0 || n > total - e)) as u8;
            if k != 0 {
                break;
            }
        }
        let same = if early == 1 {
            false
        } else {
            let r = guarded(|| match ctx.feed(&bytes) {
                Ok(Instruction::Concluded(Response::Value(v))) => Val::of(&v) == val,
                _ => false,
            });
            r.unwrap_or(false)
        };
        out.line(&format!(
            "{{\"shape\":1,\"t\":{},\"count\":{},\"keylen\":{},\"itemlen\":{},\"same\":{},\"early\":{},\"greedy\":{},\"ev\":[]}}",
            t, count, keylen, itemlen, same as u8, early, greedy
        ));
    }
    println!("{}", out.done());
}

// -------------------------------------------------------------------- builder

fn berr(e: &RequestBuilderError) -> u8 {
    match e {
        RequestBuilderError::ArgumentEmpty => 1,
        RequestBuilderError::TooManyArguments => 2,
        RequestBuilderError::ValueEmpty => 3,
    }
}

fn all_args(r: &Request<'_>) -> Vec<Vec<u8>> {
    (0..r.arg_count()).map(|i| r.arg(i).map(|x| x.to_vec()).unwrap_or_else(|| b"missing".to_vec())).collect()
}

/// What a builder amounts to after an operation, next to what it did before.
fn look(b: &RequestBuilder, before: &[Vec<u8>], bytes_before: &[u8], r: u8) -> (String, Vec<Vec<u8>>, Vec<u8>) {
    let q = b.clone().into_request();
    let args = all_args(&q);
    let keep = args.len() >= before.len() && args[..before.len()] == *before;
    let added = if keep { &args[before.len()..] } else { &args[..] };
    let bytes = q.as_bytes().to_vec();
    let it = q.args(..).map(|i| i.len() as i64).unwrap_or(-1);
    let s = format!(
        "{{\"r\":{},\"c\":{},\"t\":{},\"bc\":{},\"bt\":{},\"cnt\":{},\"it\":{},\"keep\":{},\"add\":{},\"len\":{},\"same\":{}}}",
        r,
        q.command_id() as u8,
        q.key_type().map(|k| k as i64).unwrap_or(-1),
        *b.command_id_ref() as u8,
        b.key_type_ref().map(|k| *k as i64).unwrap_or(-1),
        q.arg_count(),
        it,
        keep as u8,
        jbs(added),
        bytes.len(),
        (bytes == bytes_before) as u8
    );
    (s, args, bytes)
}

fn builds(a: &Args, mut out: Out) {
    let mut g = Gen::new(a.num("--seed", 1) ^ 0x1212);
    for i in 0..a.num("--n", 100) {
        let c = if g.r.pct(12) { 101 } else { *g.r.pick(&COMMANDS) };
        let k = if g.r.pct(50) { Some(g.r.below(8) as u8) } else { None };
        let id = CommandId::try_from(c).unwrap();
        let mut b = match k {
            None if g.r.pct(50) => RequestBuilder::new(id),
            None => RequestBuilder::new_with_key_type(id, None),
            Some(k) => RequestBuilder::new_with_key_type(id, KeyType::try_from(k).unwrap()),
        };
        let mut ev = vec![];
        let head = format!("{{\"c\":{},\"t\":{},\"ev\":[", c, k.map(i64::from).unwrap_or(-1));
        // Some get full.
        let fill = i % 4 == 0;
        let (s, mut args, mut bytes) = look(&b, &[], &[], 0);
        ev.push(format!("{{\"op\":0,\"b\":[],\"o\":{}}}", s));
        let len = if fill { 14 } else { 2 + g.r.below(12) };
        for step in 0..len {
            let res: Result<(String, u8), String> = match g.r.below(if fill { 9 } else { 12 }) {
                _ if fill && step == 0 => {
                    // Up to just under the limit.
                    let n = 248 + g.r.below(8);
                    let v = Val { t: 5, v: J::A((0..n).map(|x| J::bytes(&[x as u8])).collect()) };
                    value(&mut b, v)
                }
                0..=2 => {
                    let x = match g.r.below(8) {
                        0 => vec![],
                        1 => { let l = *g.r.pick(&[255usize, 256, 257]); g.r.bytes(l) }
                        2 => vec![0],
                        _ => small(&mut g, 6),
                    };
                    let text = format!("\"op\":1,\"b\":{}", jb(&x));
                    guarded(|| b.bytes(x).map(|_| ()).map_err(|e| berr(&e)).err().unwrap_or(0)).map(|r| (text, r))
                }
                3..=7 => {
                    let mut v = gen_val(&mut g);
                    if g.r.pct(60) && v.t >= 5 {
                        // Without empty parts.
                        v = full(v);
                    }
                    value(&mut b, v)
                }
                8 | 9 => guarded(|| {
                    let q = b.clone().into_request();
                    b = RequestBuilder::from(q);
                })
                .map(|_| ("\"op\":3,\"b\":[]".to_owned(), 0)),
                10 => guarded(|| {
                    let owned = b.clone().into_request().into_bytes().into_owned();
                    let mut ctx = Context::new();
                    if let Ok(Some(q)) = ctx.feed(&owned) {
                        b = RequestBuilder::from(q);
                    } else {
                        panic!("doesn't parse");
                    };
                })
                .map(|_| ("\"op\":3,\"b\":[]".to_owned(), 0)),
                _ => guarded(|| {
                    // The same, with more in the buffer.
                    let mut owned = b.clone().into_request().into_bytes().into_owned();
                    owned.extend_from_slice(&[100, 1, 0, 0, 0, 1, 7]);
                    let mut ctx = Context::new();
                    if let Ok(Some(q)) = ctx.feed(&owned) {
                        b = RequestBuilder::from(q);
                    } else {
                        panic!("doesn't parse");
                    };
                })
                .map(|_| ("\"op\":3,\"b\":[]".to_owned(), 0)),
            };
            match res.and_then(|(text, r)| guarded(|| look(&b, &args, &bytes, r)).map(|x| (text, x))) {
                Ok((text, (s, na, nb))) => {
                    ev.push(format!("{{{},\"o\":{}}}", text, s));
                    args = na;
                    bytes = nb;
                }
                Err(m) => {
                    ev.push(format!("{{\"op\":9,\"b\":[],\"o\":{{\"r\":9,\"m\":{}}}}}", esc(&m)));
                    break;
                }
            }
        }
        let q = b.into_request();
        let n = q.arg_count();
        for _ in 0..3 {
            // Around the ends, and anywhere.
            let at = |g: &mut Gen| if g.r.pct(50) { g.r.below(4) } else { n.saturating_sub(2) + g.r.below(5) };
            let (ks, ke) = (g.r.below(3), g.r.below(3));
            let (s, e) = (at(&mut g), at(&mut g));
            let bound = |k: usize, x: usize| match k { 0 => Bound::Unbounded, 1 => Bound::Included(x), _ => Bound::Excluded(x) };
            let res = guarded(|| {
                q.args((bound(ks, s), bound(ke, e))).map(|mut it| {
                    let (mut lens, mut got) = (vec![it.len()], vec![]);
                    while let Some(x) = it.next() {
                        got.push(x.to_vec());
                        lens.push(it.len());
                    }
                    (lens, got)
                })
            });
            let o = match res {
                Ok(Some((lens, got))) => format!("\"r\":0,\"l\":{:?},\"a\":{}", lens, jbs(&got)),
                Ok(None) => "\"r\":1,\"l\":[],\"a\":[]".to_owned(),
                Err(_) => "\"r\":9,\"l\":[],\"a\":[]".to_owned(),
            };
            ev.push(format!("{{\"op\":6,\"b\":[{},{},{},{}],\"o\":{{{}}}}}", ks, s, ke, e, o));
        }
        ev.push(format!("{{\"op\":5,\"b\":{},\"o\":{{\"r\":0}}}}", jb(&q.into_bytes())));
        out.line(&format!("{}{}]}}", head, ev.join(",")));
    }
    println!("{}", out.done());
}

fn full(v: Val) -> Val {
    fn fix(x: &J) -> J {
        if x.arr().is_empty() { J::bytes(b"z") } else { x.clone() }
    }
    let a = v.v.arr();
    let fixed = match v.t {
        6 => J::A(a.iter().map(|p| J::A(vec![fix(&p.arr()[0]), fix(&p.arr()[1])])).collect()),
        _ => J::A(a.iter().map(fix).collect()),
    };
    Val::of(&Val { t: v.t, v: fixed }.value())
}

fn value(b: &mut RequestBuilder, v: Val) -> Result<(String, u8), String> {
    let text = format!("\"op\":2,\"b\":{},\"v\":{}", "[]", v.s());
    guarded(|| b.value(v.value()).map(|_| ()).map_err(|e| berr(&e)).err().unwrap_or(0)).map(|r| (text, r))
}
