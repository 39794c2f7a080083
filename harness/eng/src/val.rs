//! Store values and requests as the specification sees them.
use crate::util::J;
use dashmap::{DashMap, DashSet};
use hop_engine::{
    command::{
        request::{Context, RequestBuilder},
        CommandId, DispatchError, Request,
    },
    state::{KeyType, Value},
    Hop,
};
use std::convert::TryFrom;

pub const COMMANDS: [u8; 16] = [0, 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 100, 101];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Val {
    pub t: u8,
    pub v: J,
}

fn canon(f: f64) -> [u8; 8] {
    if f.is_nan() {
        [0x7f, 0xf8, 0, 0, 0, 0, 0, 0]
    } else {
        f.to_be_bytes()
    }
}

fn sorted(mut a: Vec<J>) -> J {
    a.sort();
    J::A(a)
}

impl Val {
    pub fn of(v: &Value) -> Val {
        match v {
            Value::Bytes(b) => Val { t: 0, v: J::bytes(b) },
            Value::Boolean(b) => Val { t: 1, v: J::bytes(&[*b as u8]) },
            Value::Float(f) => Val { t: 2, v: J::bytes(&canon(*f)) },
            Value::Integer(i) => Val { t: 3, v: J::bytes(&i.to_be_bytes()) },
            Value::String(s) => Val { t: 4, v: J::bytes(s.as_bytes()) },
            Value::List(l) => Val { t: 5, v: J::A(l.iter().map(|x| J::bytes(x)).collect()) },
            Value::Map(m) => Val {
                t: 6,
                v: sorted(
                    m.iter()
                        .map(|r| J::A(vec![J::bytes(r.key()), J::bytes(r.value())]))
                        .collect(),
                ),
            },
            Value::Set(s) => Val { t: 7, v: sorted(s.iter().map(|r| J::bytes(r.key())).collect()) },
        }
    }
    pub fn value(&self) -> Value {
        let arr8 = || {
            let mut a = [0; 8];
            a.copy_from_slice(&self.v.to_bytes());
            a
        };
        match self.t {
            0 => Value::Bytes(self.v.to_bytes()),
            1 => Value::Boolean(self.v.to_bytes()[0] != 0),
            2 => Value::Float(f64::from_be_bytes(arr8())),
            3 => Value::Integer(i64::from_be_bytes(arr8())),
            4 => Value::String(String::from_utf8(self.v.to_bytes()).unwrap()),
            5 => Value::List(self.v.arr().iter().map(J::to_bytes).collect()),
            6 => {
                let m = DashMap::new();
                for p in self.v.arr() {
                    m.insert(p.arr()[0].to_bytes(), p.arr()[1].to_bytes());
                }
                Value::Map(m)
            }
            _ => {
                let s = DashSet::new();
                for x in self.v.arr() {
                    s.insert(x.to_bytes());
                }
                Value::Set(s)
            }
        }
    }
    pub fn canonical(self) -> Val {
        match self.t {
            6 | 7 => Val { t: self.t, v: sorted(self.v.arr().to_vec()) },
            _ => self,
        }
    }
    pub fn s(&self) -> String {
        format!("{{\"t\":{},\"v\":{}}}", self.t, self.v.s())
    }
}

/// Decodes the response at the start of `b`, by the documented format and
/// independently of hop's decoder. Errors are returned as `Err`.
pub fn decode(b: &[u8]) -> Option<(Result<Val, (u8, u8)>, usize)> {
    let n = u32::from_be_bytes([*b.get(0)?, *b.get(1)?, *b.get(2)?, *b.get(3)?]) as usize;
    let body = b.get(4..4 + n)?;
    let (&t, mut p) = body.split_first()?;
    fn take<'a>(p: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
        if p.len() < n {
            return None;
        }
        let (x, y) = p.split_at(n);
        *p = y;
        Some(x)
    }
    fn int(p: &mut &[u8], n: usize) -> Option<usize> {
        Some(take(p, n)?.iter().fold(0usize, |a, x| a << 8 | usize::from(*x)))
    }
    let val = match t {
        0 => {
            let b = take(&mut p, 1)?[0];
            Ok(Val { t: 1, v: J::bytes(&[b]) })
        }
        1 | 7 => {
            let l = int(&mut p, 4)?;
            let x = take(&mut p, l)?;
            Ok(Val { t: if t == 1 { 0 } else { 4 }, v: J::bytes(x) })
        }
        2 => {
            let mut a = [0; 8];
            a.copy_from_slice(take(&mut p, 8)?);
            Ok(Val { t: 2, v: J::bytes(&canon(f64::from_be_bytes(a))) })
        }
        3 => Ok(Val { t: 3, v: J::bytes(take(&mut p, 8)?) }),
        4 => {
            let c = int(&mut p, 2)?;
            let mut v = vec![];
            for _ in 0..c {
                let l = int(&mut p, 4)?;
                v.push(J::bytes(take(&mut p, l)?));
            }
            Ok(Val { t: 5, v: J::A(v) })
        }
        5 => {
            let c = int(&mut p, 2)?;
            let mut v = vec![];
            for _ in 0..c {
                let l = int(&mut p, 1)?;
                let k = J::bytes(take(&mut p, l)?);
                let l = int(&mut p, 4)?;
                v.push(J::A(vec![k, J::bytes(take(&mut p, l)?)]));
            }
            Ok(Val { t: 6, v: sorted(v) })
        }
        6 => {
            let c = int(&mut p, 2)?;
            let mut v = vec![];
            for _ in 0..c {
                let l = int(&mut p, 2)?;
                v.push(J::bytes(take(&mut p, l)?));
            }
            Ok(Val { t: 7, v: sorted(v) })
        }
        8 | 9 => Err((t, take(&mut p, 1)?[0])),
        _ => return None,
    };
    if !p.is_empty() {
        return None;
    }
    Some((val, 4 + n))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Req {
    pub c: u8,
    pub k: Option<u8>,
    pub a: Vec<Vec<u8>>,
}

impl Req {
    pub fn new(c: u8, k: Option<u8>, a: Vec<Vec<u8>>) -> Req {
        Req { c, k, a }
    }
    pub fn simple(&self) -> bool {
        self.c == 101
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![self.c | if self.k.is_some() { 0x80 } else { 0 }];
        b.extend(self.k);
        if !self.simple() {
            b.push(self.a.len() as u8);
            for x in &self.a {
                b.extend_from_slice(&(x.len() as u32).to_be_bytes());
                b.extend_from_slice(x);
            }
        }
        b
    }
    /// Runs `f` with the request, made by the builder where it can make it and
    /// by the parser otherwise (empty arguments).
    pub fn with<T>(&self, f: impl FnOnce(&Request<'_>) -> T) -> Option<T> {
        let c = CommandId::try_from(self.c).ok()?;
        let k = match self.k {
            Some(k) => Some(KeyType::try_from(k).ok()?),
            None => None,
        };
        if self.a.len() <= 255 && self.a.iter().all(|x| !x.is_empty()) {
            let mut b = RequestBuilder::new_with_key_type(c, k);
            for x in &self.a {
                b.bytes(x.clone()).ok()?;
            }
            Some(f(&b.into_request()))
        } else {
            let b = self.encode();
            let mut ctx = Context::new();
            let r = match ctx.feed(&b) {
                Ok(Some(req)) => Some(f(&req)),
                _ => None,
            };
            r
        }
    }
    pub fn s(&self) -> String {
        format!(
            "\"c\":{},\"k\":{},\"a\":{}",
            self.c,
            self.k.map(i64::from).unwrap_or(-1),
            crate::util::jbs(&self.a)
        )
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Res {
    Ok(Val),
    Err(u8),
    Panic(String),
    /// What was appended to the caller's buffer isn't one response on success
    /// and nothing on failure.
    Bad(String),
    /// The request couldn't be made.
    NoRequest,
}

impl Res {
    pub fn unordered(self) -> Res {
        match self {
            Res::Ok(Val { t: 5, v }) => Res::Ok(Val { t: 5, v: sorted(v.arr().to_vec()) }),
            other => other,
        }
    }
    pub fn s(&self) -> String {
        match self {
            Res::Ok(v) => format!("{{\"k\":0,\"v\":{}}}", v.s()),
            Res::Err(e) => format!("{{\"k\":1,\"e\":{}}}", e),
            Res::Panic(m) => format!("{{\"k\":2,\"m\":{}}}", crate::util::esc(m)),
            Res::Bad(m) => format!("{{\"k\":4,\"m\":{}}}", crate::util::esc(m)),
            Res::NoRequest => "{\"k\":5}".to_owned(),
        }
    }
}

pub fn derr(e: DispatchError) -> u8 {
    match e {
        DispatchError::ArgumentRetrieval => 0,
        DispatchError::KeyUnspecified => 1,
        DispatchError::KeyTypeDifferent => 2,
        DispatchError::KeyTypeUnexpected => 3,
        DispatchError::PreconditionFailed => 4,
        DispatchError::KeyNonexistent => 5,
        DispatchError::KeyTypeRequired => 6,
        DispatchError::KeyTypeInvalid => 7,
    }
}

/// Dispatches the request with `prefix` already in the response buffer.
pub fn dispatch(hop: &Hop, req: &Request<'_>, prefix: &[u8]) -> Res {
    let mut buf = prefix.to_vec();
    match crate::util::guarded(|| hop.dispatch(req, &mut buf)) {
        Err(m) => Res::Panic(m),
        Ok(r) => {
            if !buf.starts_with(prefix) {
                return Res::Bad("the buffer's contents were changed".into());
            }
            let added = &buf[prefix.len()..];
            match r {
                Err(e) if added.is_empty() => Res::Err(derr(e)),
                Err(e) => Res::Bad(format!("{:?} and {} bytes", e, added.len())),
                Ok(()) => match decode(added) {
                    Some((Ok(v), n)) if n == added.len() => Res::Ok(v),
                    _ => Res::Bad(format!("malformed response {:?}", &added[..added.len().min(40)])),
                },
            }
        }
    }
}

pub fn run(hop: &Hop, r: &Req, prefix: &[u8]) -> Res {
    match crate::util::guarded(|| r.with(|req| dispatch(hop, req, prefix))) {
        Ok(Some(res)) => res,
        Ok(None) => Res::NoRequest,
        Err(m) => Res::Panic(m),
    }
}

/// The contents of the store under the given names.
pub fn snapshot(hop: &Hop, keys: &[Vec<u8>]) -> Vec<(Vec<u8>, Val)> {
    let mut out = vec![];
    for k in keys {
        if k.is_empty() || k.starts_with(b"__hop__:") {
            continue;
        }
        if let Some(r) = hop.state().key_ref(k) {
            out.push((k.clone(), Val::of(r.value())));
        }
    }
    out
}

pub fn snap_s(s: &[(Vec<u8>, Val)]) -> String {
    let mut o = String::from("[");
    for (i, (k, v)) in s.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{{\"n\":{},\"x\":{}}}", crate::util::jb(k), v.s()));
    }
    o.push(']');
    o
}
