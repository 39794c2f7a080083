//! The lock operations of every operation, recorded one operation at a time.
use crate::{sched::*, util::*, val::*};
use dashmap::verif::{self, Point};
use hop_engine::Hop;
use std::{
    cell::RefCell,
    collections::{BTreeSet, HashMap},
    time::Duration,
};

thread_local! {
    static LOG: RefCell<Vec<(Point, usize, &'static str)>> = RefCell::new(vec![]);
}

fn hook(p: Point, lock: usize, name: &'static str) {
    if p == Point::Blocked {
        // Alone, a thread can only wait for itself.
        panic!("waits for a lock it holds");
    }
    LOG.with(|l| l.borrow_mut().push((p, lock, name)));
}

/// A lock program: [kind, lock, class] per step, where kind is 0 for read, 1
/// for write and 2 for release and locks count from 1 in order of appearance.
fn program(log: &[(Point, usize, &'static str)], classes: &mut Vec<String>) -> Vec<[usize; 3]> {
    let mut ids: HashMap<usize, (usize, usize)> = HashMap::new();
    let mut v = vec![];
    for (p, lock, name) in log {
        if *p != Point::Released && !ids.contains_key(lock) {
            let class = classes.iter().position(|c| c == name).unwrap_or_else(|| {
                classes.push((*name).to_string());
                classes.len() - 1
            });
            let n = ids.len() + 1;
            ids.insert(*lock, (n, class));
        }
        if let Some((n, class)) = ids.get(lock) {
            v.push([match p {
                Point::Read => 0,
                Point::Write => 1,
                _ => 2,
            }, *n, *class]);
        }
    }
    v
}

/// Steps that take a lock and give it back without taking another in between
/// can't be part of a deadlock on their own; the rest is kept.
pub fn locks(a: &Args) {
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(10));
    let mut out = Out::new(&path);
    let mut classes = vec![];
    let mut seen: BTreeSet<Vec<[usize; 3]>> = BTreeSet::new();
    let mut runs = 0;
    for profile in &["X04", "X01", "X02", "X03", "P01", "N01"] {
        for init in inits(profile) {
            // Each operation after each other one, in stores of one and of several shards.
            for shards in &[1usize, 4, 64] {
                for first in pool(profile).iter().map(Some).chain(std::iter::once(None)) {
                    for op in pool(profile) {
                        verif::set_shards(*shards);
                        let hop = Hop::new();
                        for (k, v) in &init {
                            hop.state().insert(k.clone(), v.value());
                        }
                        if let Some(f) = first {
                            verif::set_hook(Some(hook));
                            let o = watched(|| format!("{{\"hang\":{}}}", esc(&f.s())), || f.run(&hop));
                            verif::set_hook(None);
                            if o.contains("waits for a lock it holds") {
                                // As an operation of its own it is reported.
                                std::mem::forget(hop);
                                continue;
                            }
                        }
                        LOG.with(|l| l.borrow_mut().clear());
                        verif::set_hook(Some(hook));
                        let o = watched(|| format!("{{\"hang\":{}}}", esc(&op.s())), || op.run(&hop));
                        verif::set_hook(None);
                        runs += 1;
                        let log = LOG.with(|l| l.borrow().clone());
                        if o.contains("waits for a lock it holds") {
                            out.line(&format!("{{\"self\":1,\"op\":{},\"first\":{}}}", esc(&op.s()), esc(&first.map(Op::s).unwrap_or_default())));
                            // Its guards may be lost with the panic.
                            std::mem::forget(hop);
                            continue;
                        }
                        let p = program(&log, &mut classes);
                        if seen.insert(p.clone()) {
                            let steps: Vec<J> = p.iter().map(|s| J::A(s.iter().map(|x| J::N(*x as i64)).collect())).collect();
                            out.line(&format!("{{\"self\":0,\"op\":{},\"steps\":{}}}", esc(&op.s()), J::A(steps).s()));
                        }
                    }
                }
            }
        }
    }
    let n = out.done();
    println!("{{\"runs\":{},\"programs\":{},\"classes\":[{}]}}", runs, n,
        classes.iter().map(|c| esc(c)).collect::<Vec<_>>().join(","));
}
