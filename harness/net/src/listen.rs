//! Where servers listen that are started with all kinds of settings.
use crate::{
    srv::{jobs, seed_of},
    util::*,
    val::{decode, Req},
};
use std::{
    ffi::OsString,
    fs,
    io::{Read, Write},
    net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream},
    os::unix::{ffi::OsStringExt, io::AsRawFd, process::CommandExt},
    process::{Child, Command, Stdio},
    sync::Mutex,
    thread::sleep,
    time::{Duration, Instant},
};

const HOSTS: [&str; 15] = [
    "127.0.0.1", "127.1.2.3", "127.200.0.9", "0.0.0.0", "::1", "::", "0:0:0:0:0:0:0:1", "::ffff:127.0.0.1",
    "::FFFF:7f00:1", "0::0.0.0.1", "192.0.2.1", "255.255.255.255", "10.255.255.254", "2001:db8::7", "127.10.99.100",
];
const ODD_HOSTS: [&str; 32] = [
    "", "localhost", "127.0.0", "127.0.0.1.", "127.0.0.256", "127.0.0.1:80", " 127.0.0.1", "127.0.0.1 ", "127.0.0.1\n",
    "[::1]", "::1%lo", "1::2::3", ":::", ":", ".", "0x7f.0.0.1", "127.1", "2130706433", "+127.0.0.1", "127.0.0.-1",
    "12345::", "g::1", "127..0.1", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8::", "::127.0.0.1:1", "127.0.0.1/8",
    "\u{661}27.0.0.1", "*", "any", "127,0,0,1",
];
const ODD_PORTS: [&str; 24] = [
    "", "-1", "-0", "65536", "65537", "99999", "70000", "131072", "4294967296", "1e3", "0x50", " 8080", "8080 ", "8080\n", "80a",
    "+", "++1", "\u{662}\u{661}", "1_000", "8080.0", "none", "18446744073709551617", "112269", "8,080",
];

fn listening(child: &Child) -> Vec<SocketAddr> {
    let mut inodes = vec![];
    if let Ok(d) = fs::read_dir(format!("/proc/{}/fd", child.id())) {
        for e in d.flatten() {
            if let Ok(t) = fs::read_link(e.path()) {
                let t = t.to_string_lossy().into_owned();
                if let Some(i) = t.strip_prefix("socket:[").and_then(|t| t.strip_suffix(']')) {
                    inodes.push(i.to_owned());
                }
            }
        }
    }
    let mut out = vec![];
    for f in &["/proc/net/tcp", "/proc/net/tcp6"] {
        for l in fs::read_to_string(f).unwrap_or_default().lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 10 || w[3] != "0A" || !inodes.iter().any(|i| i == w[9]) {
                continue;
            }
            let mut parts = w[1].split(':');
            let (ip, port) = (parts.next().unwrap(), u16::from_str_radix(parts.next().unwrap(), 16).unwrap());
            let b: Vec<u8> = (0..ip.len() / 8)
                .flat_map(|i| u32::from_str_radix(&ip[i * 8..i * 8 + 8], 16).unwrap().to_ne_bytes().to_vec())
                .collect();
            let ip = if b.len() == 4 {
                IpAddr::V4(Ipv4Addr::new(b[0], b[1], b[2], b[3]))
            } else {
                let mut x = [0; 16];
                x.copy_from_slice(&b);
                IpAddr::from(x)
            };
            out.push(SocketAddr::new(ip, port));
        }
    }
    out.sort();
    out.dedup();
    out
}

/// The numbers two increments are answered with.
fn asked(at: SocketAddr) -> Option<Vec<i64>> {
    let ip = match at.ip() {
        IpAddr::V4(ip) if ip.is_unspecified() => Ipv4Addr::LOCALHOST,
        IpAddr::V4(ip) => ip,
        IpAddr::V6(_) => return None,
    };
    let mut s = TcpStream::connect_timeout(&SocketAddr::from((ip, at.port())), Duration::from_secs(5)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
    // Leave nothing behind that has its port for another minute.
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
    }
    let mut b = Req::new(0, None, vec![b"n".to_vec()]).encode();
    b.extend(b.clone());
    s.write_all(&b).ok()?;
    let mut got = vec![];
    let mut out = vec![];
    while out.len() < 2 {
        let mut part = [0; 64];
        let n = s.read(&mut part).ok()?;
        if n == 0 {
            return None;
        }
        got.extend_from_slice(&part[..n]);
        while let Some((v, used)) = decode(&got) {
            out.push(match v {
                Ok(v) => v.v.arr().last().map_or(-1, J::num),
                Err(_) => -2,
            });
            got.drain(..used);
        }
    }
    Some(out)
}

/// Whether some socket of the machine has one of those ports, as one of a
/// connection that has been closed a while ago may.
fn taken(of: &[u16]) -> Vec<u16> {
    let mut out = vec![];
    for f in &["/proc/net/tcp", "/proc/net/tcp6"] {
        for line in std::fs::read_to_string(f).unwrap_or_default().lines().skip(1) {
            let port = line.split_whitespace().nth(1).and_then(|x| x.rsplit(':').next());
            if let Some(Ok(p)) = port.map(|p| u16::from_str_radix(p, 16)) {
                if of.contains(&p) && !out.contains(&p) {
                    out.push(p);
                }
            }
        }
    }
    out
}

/// Started, what it listens on, and whether it stays.
fn observe(bin: &str, host: &Option<Vec<u8>>, port: &Option<Vec<u8>>, r: &mut Rng) -> (bool, Vec<SocketAddr>, Vec<i64>) {
    let mut cmd = Command::new(bin);
    cmd.env_remove("HOST").env_remove("PORT").env_remove("RUST_LOG");
    if let Some(h) = host {
        cmd.env("HOST", OsString::from_vec(h.clone()));
    }
    if let Some(p) = port {
        cmd.env("PORT", OsString::from_vec(p.clone()));
    }
    if r.pct(10) {
        cmd.env("RUST_LOG", "trace");
    }
    cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("start the server");
    let since = Instant::now();
    let mut at = vec![];
    let mut up = true;
    while since.elapsed() < Duration::from_secs(20) {
        if child.try_wait().expect("wait").is_some() {
            up = false;
            at.clear();
            break;
        }
        at = listening(&child);
        if !at.is_empty() {
            break;
        }
        sleep(Duration::from_millis(2));
    }
    let mut n = vec![];
    if up && at.len() == 1 && r.pct(40) {
        let plain = |ip: Ipv4Addr| ip.is_unspecified() || (ip.is_loopback() && (1..255).contains(&ip.octets()[3]));
        if matches!(at[0].ip(), IpAddr::V4(ip) if plain(ip)) {
            n = asked(at[0]).unwrap_or_else(|| vec![0]);
        }
    }
    if up {
        let _ = child.kill();
        let _ = child.wait();
    }
    (up, at, n)
}

fn zeros_lead(h: &[u8]) -> bool {
    h.split(|b| *b == b'.').any(|p| p.len() > 1 && p[0] == b'0') && h.contains(&b'.')
}

fn change(r: &mut Rng, s: &str) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..1 + r.below(2) {
        let at = r.below(b.len() + 1);
        match r.below(4) {
            0 if at < b.len() => drop(b.remove(at)),
            1 if at < b.len() => b[at] = *r.pick(b"0123456789.:afg -+"),
            2 => b.insert(at, *r.pick(b"0123456789.:afg -+")),
            _ if r.pct(20) => b.insert(at, 0xff),
            _ => b.truncate(at),
        }
    }
    b
}

static ALONE: Mutex<()> = Mutex::new(());

/// S05
pub fn listen(a: &Args) {
    let bin = a.str("--server", "");
    let n = a.num("--n", 40) as usize;
    let base = seed_of(a, 21);
    jobs(a, n, 8, move |i| {
        let mut r = Rng::new(base.wrapping_add(i as u64));
        let mut evs = vec![];
        for _ in 0..8 {
            let host = match r.below(10) {
                0 => None,
                1..=5 => Some(r.pick(&HOSTS).as_bytes().to_vec()),
                6 | 7 => Some(r.pick(&ODD_HOSTS).as_bytes().to_vec()),
                8 => {
                    let h = *r.pick(&HOSTS);
                    Some(change(&mut r, h))
                }
                _ => {
                    let s = format!("127.{}.{}.{}", r.below(256), r.below(256), r.below(256));
                    Some(s.into_bytes())
                }
            };
            if host.as_ref().map_or(false, |h| zeros_lead(h) || h.contains(&0)) {
                continue;
            }
            // Below those that the system gives to others.
            let mine = 1024 + r.below(31000);
            let mut own = true;
            let port = match r.below(10) {
                0 => {
                    own = false;
                    None
                }
                1 | 2 => {
                    own = false;
                    Some(r.pick(&ODD_PORTS).as_bytes().to_vec())
                }
                3 => {
                    own = false;
                    let s = mine.to_string();
                    Some(change(&mut r, &s))
                }
                4 => Some(b"0".to_vec()),
                5 => Some(format!("+{}", mine).into_bytes()),
                6 => Some(format!("{}{}", "0".repeat(1 + r.below(4)), mine).into_bytes()),
                7 => {
                    own = false;
                    Some(r.pick(&["65535", "1024", "32768", "46733", "46734", "8080", "80", "1", "255", "256"]).as_bytes().to_vec())
                }
                _ => Some(mine.to_string().into_bytes()),
            };
            let hold = if own { None } else { Some(ALONE.lock().unwrap_or_else(|e| e.into_inner())) };
            // Somebody else may have that address.
            let meant = port.as_ref().and_then(|p| std::str::from_utf8(p).ok()).and_then(|p| p.parse().ok());
            let meant = [46733, meant.unwrap_or(46733)];
            let mut busy = taken(&meant);
            let mut seen = observe(&bin, &host, &port, &mut r);
            for _ in 0..6 {
                if seen.0 || matches!(&host, Some(h) if h.contains(&b':')) {
                    break;
                }
                sleep(Duration::from_millis(30));
                busy = taken(&meant);
                seen = observe(&bin, &host, &port, &mut r);
            }
            if !seen.0 {
                busy.append(&mut taken(&meant));
            }
            drop(hold);
            let (up, at, n) = seen;
            let opt = |x: &Option<Vec<u8>>| x.as_ref().map_or("[]".to_owned(), |b| format!("[{}]", jb(b)));
            let at: Vec<String> = at
                .iter()
                .map(|a| {
                    let b = match a.ip() {
                        IpAddr::V4(x) => jb(&x.octets()),
                        IpAddr::V6(x) => jb(&x.octets()),
                    };
                    format!("[{},{}]", b, a.port())
                })
                .collect();
            evs.push(format!(
                "{{\"h\":{},\"p\":{},\"up\":{},\"at\":[{}],\"n\":{},\"b\":{}}}",
                opt(&host),
                opt(&port),
                up as u8,
                at.join(","),
                J::A(n.into_iter().map(J::N).collect()).s(),
                J::A(busy.into_iter().map(|p| J::N(p.into())).collect()).s()
            ));
        }
        if evs.is_empty() {
            return None;
        }
        Some(format!("{{\"id\":{},\"ev\":[{}]}}", i, evs.join(",")))
    });
}
