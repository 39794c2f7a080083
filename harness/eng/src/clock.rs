//! The timer, under a clock that the driver sets.
use crate::util::*;
use hop_internal_timer::Timer;
use std::cell::Cell;
use std::time::{Duration, Instant};

thread_local! {
    /// Seconds and nanoseconds of the steady clock, and of a wall clock that
    /// is set back all the time.
    static NOW: Cell<Option<(i64, i64)>> = Cell::new(None);
    static WALL: Cell<i64> = Cell::new(0);
}

/// Takes the place of libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let now = NOW.try_with(|n| n.get()).ok().flatten();
    let (s, n) = match now {
        None => return libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int,
        Some(x) => x,
    };
    match id {
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => {
            (*ts).tv_sec = s as libc::time_t;
            (*ts).tv_nsec = n as libc::c_long;
        }
        libc::CLOCK_MONOTONIC_COARSE => {
            (*ts).tv_sec = s as libc::time_t;
            (*ts).tv_nsec = (n / 4_000_000 * 4_000_000) as libc::c_long;
        }
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
            let w = WALL.try_with(|w| {
                w.set(w.get() + 1);
                w.get()
            });
            (*ts).tv_sec = (2_000_000_000 - w.unwrap_or(0)) as libc::time_t;
            (*ts).tv_nsec = n as libc::c_long;
        }
        _ => {
            // Time that the process has spent isn't time that has passed.
            (*ts).tv_sec = 0;
            (*ts).tv_nsec = 0;
        }
    }
    0
}

fn dur(d: Option<Duration>) -> String {
    match d {
        None => "[]".into(),
        Some(d) => format!("[{},{}]", d.as_secs(), d.subsec_nanos()),
    }
}

/// 0 start, 1 stop, 2 duration, 3 is_running, 4 reset, 5 clone it and go on
/// with the clone, 6 clone it and stop using the clone after misusing it.
fn apply(t: &mut Timer, op: usize) -> String {
    let r = guarded(|| match op {
        0 => format!("{{\"k\":0,\"b\":{},\"d\":[]}}", t.start() as u8),
        1 => format!("{{\"k\":0,\"b\":0,\"d\":{}}}", dur(t.stop())),
        2 => format!("{{\"k\":0,\"b\":0,\"d\":{}}}", dur(t.duration())),
        3 => format!("{{\"k\":0,\"b\":{},\"d\":[]}}", t.is_running() as u8),
        4 => {
            t.reset();
            "{\"k\":0,\"b\":0,\"d\":[]}".into()
        }
        5 => {
            let c = t.clone();
            *t = c;
            "{\"k\":0,\"b\":0,\"d\":[]}".into()
        }
        _ => {
            let mut c = t.clone();
            c.start();
            c.stop();
            c.reset();
            "{\"k\":0,\"b\":0,\"d\":[]}".into()
        }
    });
    match r {
        Ok(s) => s,
        Err(m) => {
            NOW.with(|n| n.set(None));
            format!("{{\"k\":2,\"m\":{},\"b\":0,\"d\":[]}}", esc(&m))
        }
    }
}

const STEPS: [(i64, i64); 9] = [
    (0, 0), (0, 1), (0, 999_999_999), (1, 0), (0, 500_000_000), (5, 1), (3600, 999_999_999), (0, 123_456_789), (100_000_000, 0),
];

fn history(r: &mut Rng, ops: &[usize], id: usize) -> String {
    let mut t = Timer::new();
    let mut at = *r.pick(&[(0i64, 0i64), (0, 999_999_999), (12345, 1), (1_000_000_000, 500_000_000)]);
    let mut ev = vec![];
    for op in ops {
        let st = *r.pick(&STEPS);
        at = (at.0 + st.0 + (at.1 + st.1) / 1_000_000_000, (at.1 + st.1) % 1_000_000_000);
        NOW.with(|n| n.set(Some(at)));
        let o = apply(&mut t, *op);
        NOW.with(|n| n.set(None));
        ev.push(format!("{{\"c\":{},\"lo\":[{},{}],\"hi\":[{},{}],\"o\":{}}}", op, at.0, at.1, at.0, at.1, o));
    }
    format!("{{\"id\":{},\"ev\":[{}]}}", id, ev.join(","))
}

/// The same with the real clock, which is read before and after each call.
fn real(r: &mut Rng, ops: &[usize], id: usize) -> String {
    let mut t = Timer::new();
    let zero = Instant::now();
    let mut ev = vec![];
    for op in ops {
        if r.pct(20) {
            std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
        }
        let a = zero.elapsed();
        let o = apply(&mut t, *op);
        let b = zero.elapsed();
        ev.push(format!("{{\"c\":{},\"lo\":{},\"hi\":{},\"o\":{}}}", op, dur(Some(a)), dur(Some(b)), o));
    }
    format!("{{\"id\":{},\"ev\":[{}]}}", id, ev.join(","))
}

pub fn timer(a: &Args) {
    let depth = a.num("--depth", 5) as u32;
    let n = a.num("--n", 500) as usize;
    let path = a.str("--out", "/dev/null");
    watchdog(path.clone(), Duration::from_secs(20));
    let mut out = Out::new(&path);
    let mut r = Rng::new(a.num("--seed", 1) ^ 0x71);
    let mut id = 0;
    // Every sequence of the five calls.
    for d in 1..=depth {
        for x in 0..5usize.pow(d) {
            let ops: Vec<usize> = (0..d).map(|i| x / 5usize.pow(i) % 5).collect();
            out.line(&history(&mut r, &ops, id));
            id += 1;
        }
    }
    for i in 0..n {
        let len = 10 + r.below(30);
        let ops: Vec<usize> = (0..len).map(|_| r.below(7)).collect();
        let h = if i % 3 == 0 { real(&mut r, &ops, id) } else { history(&mut r, &ops, id) };
        out.line(&h);
        id += 1;
    }
    println!("{}", out.done());
}
