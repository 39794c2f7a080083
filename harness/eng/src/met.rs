//! The metrics library on its own.
use hop_internal_metrics::{Metrics, Reader, Snapshot, Writer};
use std::sync::{Arc, Mutex};

struct Sys {
    owner: Option<Arc<Metrics<u8>>>,
    reader: Reader<u8>,
    writer: Writer<u8>,
    snaps: Vec<Arc<Snapshot<u8>>>,
}

static SYS: Mutex<Option<Sys>> = Mutex::new(None);

pub fn fresh() {
    let m = Metrics::new();
    let s = Sys { reader: m.reader(), writer: m.writer(), owner: Some(Arc::new(m)), snaps: vec![] };
    let old = SYS.lock().unwrap().replace(s);
    drop(old);
}

pub fn snapshots() -> usize {
    SYS.lock().unwrap().as_ref().map_or(0, |s| s.snaps.len())
}

/// Handles to the instance, made in one of several ways.
fn reader(how: u8) -> Reader<u8> {
    let g = SYS.lock().unwrap();
    let s = g.as_ref().unwrap();
    match (how, &s.owner) {
        (1, Some(m)) => m.reader(),
        (2, _) => s.reader.clone().clone(),
        _ => s.reader.clone(),
    }
}

fn writer(how: u8) -> Writer<u8> {
    let g = SYS.lock().unwrap();
    let s = g.as_ref().unwrap();
    match (how, &s.owner) {
        (1, Some(m)) => m.writer(),
        (2, _) => s.writer.clone().clone(),
        _ => s.writer.clone(),
    }
}

/// Gauges hold large values as well.
fn wide(v: u8) -> u64 {
    if v < 128 { u64::from(v) } else { u64::max_value() - u64::from(255 - v) }
}

fn narrow(v: u64) -> i64 {
    if v < 128 {
        v as i64
    } else if v > u64::max_value() - 128 {
        255 - (u64::max_value() - v) as i64
    } else {
        999
    }
}

fn opt(v: Option<i64>) -> String {
    format!("{{\"k\":0,\"n\":{}}}", v.unwrap_or(-1))
}

/// Everything in a snapshot, read in both ways there are.
fn content(n: usize, s: &Snapshot<u8>) -> String {
    let mut cs: Vec<(u8, i64)> = s.counters().iter().map(|r| (*r.key(), *r.value() as i64)).collect();
    let mut gs: Vec<(u8, i64)> = s.gauges().iter().map(|r| (*r.key(), narrow(*r.value()))).collect();
    cs.sort();
    gs.sort();
    for k in 0..8 {
        let c = s.counter(&k).map(|v| v as i64);
        let g = s.gauge(&k).map(narrow);
        assert_eq!(c, cs.iter().find(|x| x.0 == k).map(|x| x.1), "a snapshot disagrees with itself");
        assert_eq!(g, gs.iter().find(|x| x.0 == k).map(|x| x.1), "a snapshot disagrees with itself");
    }
    let list = |v: &[(u8, i64)]| v.iter().map(|(k, x)| format!("[{},{}]", k, x)).collect::<Vec<_>>().join(",");
    format!("{{\"k\":0,\"n\":{},\"cs\":[{}],\"gs\":[{}]}}", n, list(&cs), list(&gs))
}

pub fn run(c: u8, x: u8, y: u8) -> String {
    let flag = |b: bool| opt(Some(i64::from(b)));
    match c {
        220 => flag(writer(y).increment(x)),
        221 => flag(writer(y % 3).gauge(x, wide(y))),
        222 => opt(reader(y).counter(&x).map(|v| v as i64)),
        223 => opt(reader(y).gauge(&x).map(narrow)),
        224 if x == 0 => flag(reader(y).valid()),
        224 => flag(writer(y).valid()),
        225 => {
            let m = SYS.lock().unwrap().as_ref().unwrap().owner.clone();
            match m {
                None => opt(None),
                Some(m) => {
                    let s = m.snapshot();
                    drop(m);
                    let mine = s.clone();
                    let mut g = SYS.lock().unwrap();
                    let sys = g.as_mut().unwrap();
                    let n = sys.snaps.len();
                    sys.snaps.push(Arc::new(mine));
                    drop(g);
                    content(n, &s)
                }
            }
        }
        226 => {
            let s = SYS.lock().unwrap().as_ref().unwrap().snaps[x as usize].clone();
            content(x as usize, &s)
        }
        227 => {
            let m = SYS.lock().unwrap().as_mut().unwrap().owner.take();
            flag(m.is_some())
        }
        _ => opt(None),
    }
}
