//! JSON, random numbers, values and guarded calls shared by all drivers.
use std::{
    cell::RefCell,
    fmt::Write as _,
    fs::File,
    io::{BufWriter, Write},
    sync::Mutex,
    time::{Duration, Instant},
};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum J {
    N(i64),
    A(Vec<J>),
}

impl J {
    pub fn bytes(b: &[u8]) -> J {
        J::A(b.iter().map(|x| J::N(i64::from(*x))).collect())
    }
    pub fn put(&self, s: &mut String) {
        match self {
            J::N(n) => {
                let _ = write!(s, "{}", n);
            }
            J::A(a) => {
                s.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.put(s);
                }
                s.push(']');
            }
        }
    }
    pub fn s(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            J::N(_) => panic!("not an array"),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            J::A(_) => panic!("not a number"),
        }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.num() as u8).collect()
    }
    /// Parses arrays of arrays of numbers, ignoring anything else.
    pub fn parse(s: &str) -> J {
        let mut stack: Vec<Vec<J>> = vec![vec![]];
        let mut cur: Option<i64> = None;
        let mut neg = false;
        for c in s.bytes() {
            match c {
                b'0'..=b'9' => cur = Some(cur.unwrap_or(0) * 10 + i64::from(c - b'0')),
                b'-' => neg = true,
                _ => {
                    if let Some(n) = cur.take() {
                        stack.last_mut().unwrap().push(J::N(if neg { -n } else { n }));
                        neg = false;
                    }
                    match c {
                        b'[' => stack.push(vec![]),
                        b']' => {
                            let a = stack.pop().unwrap();
                            stack.last_mut().unwrap().push(J::A(a));
                        }
                        _ => {}
                    }
                }
            }
        }
        stack.pop().unwrap().pop().expect("json value")
    }
}

pub fn jb(b: &[u8]) -> String {
    J::bytes(b).s()
}

pub fn jbs<T: AsRef<[u8]>>(b: &[T]) -> String {
    J::A(b.iter().map(|x| J::bytes(x.as_ref())).collect()).s()
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
            o.push(c);
        } else if (' '..='~').contains(&c) {
            o.push(c);
        } else {
            o.push('?');
        }
    }
    o.push('"');
    o
}

/// xorshift64*
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.below(a.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub struct Args(Vec<String>);

impl Args {
    pub fn new() -> Self {
        Args(std::env::args().collect())
    }
    pub fn cmd(&self) -> &str {
        self.0.get(1).map(String::as_str).unwrap_or("")
    }
    pub fn opt(&self, name: &str) -> Option<&str> {
        self.0
            .iter()
            .position(|a| a == name)
            .and_then(|i| self.0.get(i + 1))
            .map(String::as_str)
    }
    pub fn num(&self, name: &str, default: u64) -> u64 {
        self.opt(name).map(|s| s.parse().unwrap()).unwrap_or(default)
    }
    pub fn str(&self, name: &str, default: &str) -> String {
        self.opt(name).unwrap_or(default).to_owned()
    }
}

pub struct Out(BufWriter<File>, pub usize);

impl Out {
    pub fn new(path: &str) -> Self {
        Out(BufWriter::new(File::create(path).expect("create output")), 0)
    }
    pub fn line(&mut self, s: &str) {
        self.1 += 1;
        self.0.write_all(s.as_bytes()).unwrap();
        self.0.write_all(b"\n").unwrap();
    }
    pub fn done(mut self) -> usize {
        self.0.flush().unwrap();
        self.1
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Panics of the code under test are data, so they are kept instead of printed.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        if std::env::var("HV_PANICS").is_ok() {
            eprintln!("{}", text);
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = text);
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

struct Watch {
    since: Option<Instant>,
    on_hang: Option<String>,
}

static WATCH: Mutex<Watch> = Mutex::new(Watch {
    since: None,
    on_hang: None,
});

/// Starts a thread that, when a watched call takes longer than `limit`, appends
/// the line registered for it to `path` and ends the process normally: a hang of
/// the code under test is data as well.
pub fn watchdog(path: String, limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let w = WATCH.lock().unwrap();
        if let (Some(since), Some(line)) = (w.since, &w.on_hang) {
            if since.elapsed() > limit {
                let mut f = std::fs::OpenOptions::new()
                    .append(true)
                    .create(true)
                    .open(format!("{}.hang", path))
                    .unwrap();
                writeln!(f, "{}", line).unwrap();
                f.flush().unwrap();
                eprintln!("hang recorded");
                std::process::exit(0);
            }
        }
    });
}

pub fn watched<T>(on_hang: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
    {
        let line = on_hang();
        let mut w = WATCH.lock().unwrap();
        w.since = Some(Instant::now());
        w.on_hang = Some(line);
    }
    let r = f();
    WATCH.lock().unwrap().since = None;
    r
}
