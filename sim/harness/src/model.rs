//! Executable reference model of one key: Redis semantics of the supported commands, with expiry
//! times known as intervals (the observer knows when a command ran only up to its call/return window).
use crate::{
    plan::{cmd_name, Arg, Cmd},
    resp::Resp,
};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub type Bytes = Vec<u8>;
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Sc {
    T(Bytes),
    I(i64),
}
impl Sc {
    pub fn text(&self) -> Bytes {
        match self {
            Sc::T(b) => b.clone(),
            Sc::I(i) => i.to_string().into_bytes(),
        }
    }
    fn int(&self) -> Option<i64> {
        match self {
            Sc::I(i) => Some(*i),
            Sc::T(b) => parse_int(b),
        }
    }
}
fn parse_int(b: &[u8]) -> Option<i64> {
    std::str::from_utf8(b).ok()?.parse().ok()
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct F(pub i64); // order-preserving image of an f64
impl F {
    pub fn new(x: f64) -> F {
        let x = if x == 0.0 { 0.0 } else { x };
        let b = x.to_bits() as i64;
        F(if b < 0 { i64::MIN ^ !b } else { b })
    }
    pub fn get(self) -> f64 {
        let b = self.0;
        f64::from_bits(if b < 0 { !(b ^ i64::MIN) as u64 } else { b as u64 })
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Val {
    Str(Sc),
    Hash(BTreeMap<Bytes, Sc>),
    List(VecDeque<Sc>),
    Set(BTreeSet<Bytes>),
    Z(BTreeMap<Bytes, F>),
}
impl Val {
    /// Content with the representation of scalars (text or integer) forgotten.
    pub fn norm(&self) -> Val {
        let n = |s: &Sc| Sc::T(s.text());
        match self {
            Val::Str(s) => Val::Str(n(s)),
            Val::Hash(h) => Val::Hash(h.iter().map(|(k, v)| (k.clone(), n(v))).collect()),
            Val::List(l) => Val::List(l.iter().map(n).collect()),
            v => v.clone(),
        }
    }
}
/// State of one key. `exp` = (lo, hi) bounds in ms of the expiry instant; (0, 0) = none.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct KS {
    pub val: Option<Val>,
    pub exp: (u64, u64),
    /// only with a stepping clock: the expiry was in force from this instant (ns of simulated time)
    pub since: u64,
}
impl KS {
    pub fn none() -> KS {
        KS::default()
    }
}
#[derive(Clone, Copy)]
pub struct Win {
    /// wall clock bounds (ms) of the execution
    pub lo: u64,
    pub hi: u64,
    /// the clock may step: an expired key may become visible again, unless it was already reclaimed
    pub jump: Option<Jump>,
}

#[derive(Clone, Copy)]
pub struct Jump {
    pub machine: u32,
    pub inv_ns: u64,
    pub end_ns: u64,
}

fn args(c: &Cmd) -> Vec<Bytes> {
    c.iter().map(Arg::bytes).collect()
}
fn up(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_ascii_uppercase()
}
fn sc_of(a: &Arg) -> Sc {
    match a {
        Arg::B(b) | Arg::S(b) => Sc::T(b.clone()),
        Arg::I(i) => Sc::I(*i),
    }
}
fn same_text(r: &Resp, b: &[u8]) -> bool {
    match r {
        Resp::Simple(x) | Resp::Bulk(x) => x == b,
        Resp::Int(i) => i.to_string().as_bytes() == b,
        _ => false,
    }
}
fn is_float(r: &Resp, f: f64) -> bool {
    r.text()
        .and_then(|t| String::from_utf8(t).ok())
        .and_then(|t| t.parse::<f64>().ok())
        .map_or(false, |x| x == f || (x - f).abs() <= 1e-9 * f.abs().max(1e-300))
}
fn texts(r: &Resp) -> Option<Vec<Option<Bytes>>> {
    match r {
        Resp::Array(v) => v.iter().map(|x| if *x == Resp::Nil { Some(None) } else { x.text().map(Some) }).collect(),
        Resp::Nil => Some(vec![]),
        Resp::Bulk(_) | Resp::Simple(_) => Some(vec![r.text()]),
        _ => None,
    }
}
fn list_is(r: &Resp, want: &[Bytes]) -> bool {
    match texts(r) {
        Some(v) => v.len() == want.len() && v.iter().zip(want).all(|(a, b)| a.as_deref() == Some(&b[..])),
        None => false,
    }
}

/// Keys a command names; None: the whole database (FLUSHALL); empty: no key.
pub fn keys_of(c: &Cmd) -> Option<Vec<Bytes>> {
    let a = args(c);
    match cmd_name(c).as_str() {
        "FLUSHALL" => None,
        "PING" | "INFO" | "CONFIG" | "SYNCSNAPSHOT" => Some(vec![]),
        "DEL" | "EXISTS" => Some(a[1..].to_vec()),
        "OBJECT" | "DEBUG" => Some(a.get(2).cloned().into_iter().collect()),
        _ => Some(a.get(1).cloned().into_iter().collect()),
    }
}
pub fn is_write(c: &Cmd) -> bool {
    matches!(
        cmd_name(c).as_str(),
        "DEL" | "SET"
            | "SETEX"
            | "PSETEX"
            | "INCR"
            | "DECR"
            | "INCRBY"
            | "DECRBY"
            | "EXPIRE"
            | "PEXPIRE"
            | "EXPIREAT"
            | "PEXPIREAT"
            | "HSET"
            | "HSETNX"
            | "HDEL"
            | "HINCRBY"
            | "LPUSH"
            | "RPUSH"
            | "LPUSHX"
            | "RPUSHX"
            | "LPOP"
            | "RPOP"
            | "SADD"
            | "SREM"
            | "ZADD"
            | "ZREM"
            | "ZREMRANGEBYRANK"
            | "ZREMRANGEBYSCORE"
            | "ZREMRANGEBYLEX"
            | "RESTORE"
            | "FLUSHALL"
    )
}

struct Cx<'a> {
    r: Option<&'a Resp>,
    out: Vec<KS>,
}
impl Cx<'_> {
    fn ok(&mut self, fits: impl Fn(&Resp) -> bool, ks: KS) {
        if self.r.map_or(true, |r| fits(r)) {
            self.out.push(ks);
        }
    }
    fn int(&mut self, i: i64, ks: KS) {
        self.ok(|r| r.int() == Some(i), ks);
    }
    fn err(&mut self, ks: KS) {
        self.ok(Resp::is_err, ks);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    In(F),
    Ex(F),
    No,
}
fn score_bound(s: &[u8]) -> Option<B> {
    let t = std::str::from_utf8(s).ok()?;
    if let Some(x) = t.strip_prefix('(') {
        return x.parse::<f64>().ok().filter(|f| !f.is_nan()).map(|f| B::Ex(F::new(f)));
    }
    t.parse::<f64>().ok().filter(|f| !f.is_nan()).map(|f| B::In(F::new(f)))
}
fn in_score(x: F, lo: B, hi: B) -> bool {
    (match lo {
        B::In(l) => x >= l,
        B::Ex(l) => x > l,
        B::No => true,
    }) && (match hi {
        B::In(h) => x <= h,
        B::Ex(h) => x < h,
        B::No => true,
    })
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum L {
    In(Bytes),
    Ex(Bytes),
    Min,
    Max,
}
fn lex_bound(s: &[u8]) -> Option<L> {
    match s.first()? {
        b'-' if s.len() == 1 => Some(L::Min),
        b'+' if s.len() == 1 => Some(L::Max),
        b'(' => Some(L::Ex(s[1..].to_vec())),
        b'[' => Some(L::In(s[1..].to_vec())),
        _ => None,
    }
}
fn in_lex(x: &[u8], lo: &L, hi: &L) -> bool {
    (match lo {
        L::In(l) => x >= &l[..],
        L::Ex(l) => x > &l[..],
        L::Min => true,
        L::Max => false,
    }) && (match hi {
        L::In(h) => x <= &h[..],
        L::Ex(h) => x < &h[..],
        L::Max => true,
        L::Min => false,
    })
}
fn ordered(z: &BTreeMap<Bytes, F>) -> Vec<(Bytes, F)> {
    let mut v: Vec<(Bytes, F)> = z.iter().map(|(k, s)| (k.clone(), *s)).collect();
    v.sort_by(|a, b| (a.1, &a.0).cmp(&(b.1, &b.0)));
    v
}
fn rank_range(start: i64, stop: i64, len: usize) -> (usize, usize) {
    let n = len as i64;
    let s = if start < 0 { (start + n).max(0) } else { start };
    let e = if stop < 0 { stop + n } else { stop };
    if s >= n || e < s || e < 0 {
        return (0, 0);
    }
    (s as usize, (e.min(n - 1) + 1) as usize)
}

/// All states the key can be in after `c` ran on `ks` within `w` and gave reply `r` (None: unknown).
/// `ki`: which of several named keys (for DEL/EXISTS the reply is this key's share, as an Int).
pub fn step(ks: &KS, c: &Cmd, key: &[u8], r: Option<&Resp>, w: Win) -> Vec<KS> {
    let mut out = Vec::new();
    match (&ks.val, ks.exp) {
        (None, _) => run(None, (0, 0), c, key, r, w, &mut out),
        (Some(_), (0, 0)) => run(ks.val.as_ref(), (0, 0), c, key, r, w, &mut out),
        (Some(_), (lo, hi)) => {
            // visible iff expiry > now, now in [w.lo, w.hi]
            if hi > w.lo {
                let e = (lo.max(w.lo + 1), hi);
                run(ks.val.as_ref(), e, c, key, r, w, &mut out);
            }
            let peak = match w.jump {
                None => w.hi,
                Some(j) => crate::world::wall_window(j.machine, ks.since.min(j.end_ns), j.end_ns).1,
            };
            if lo <= peak {
                let mut o = Vec::new();
                run(None, (0, 0), c, key, r, w, &mut o);
                for k in o {
                    if w.jump.is_some() && lo <= w.hi && k.val.is_none() && cmd_name(c) != "DEL" && cmd_name(c) != "FLUSHALL" {
                        out.push(KS { val: ks.val.clone(), exp: (lo, hi.min(w.hi)), since: ks.since });
                    }
                    out.push(k);
                }
            }
        }
    }
    if let Some(j) = w.jump {
        for k in &mut out {
            if k.exp != (0, 0) {
                let kept = ks.exp != (0, 0) && k.exp.0 <= ks.exp.1 && ks.exp.0 <= k.exp.1;
                k.since = if kept { ks.since } else { j.inv_ns };
            }
        }
    }
    out
}

fn run(v: Option<&Val>, e: (u64, u64), c: &Cmd, _key: &[u8], r: Option<&Resp>, w: Win, out: &mut Vec<KS>) {
    let mut cx = Cx { r, out: std::mem::take(out) };
    run_in(v, e, c, w, &mut cx);
    *out = cx.out;
}
fn exp_plus(w: Win, d: u64) -> (u64, u64) {
    (w.lo.saturating_add(d), w.hi.saturating_add(d))
}
fn run_in(v: Option<&Val>, e: (u64, u64), c: &Cmd, w: Win, cx: &mut Cx) {
    let a = args(c);
    let name = cmd_name(c);
    let same = || KS { val: v.cloned(), exp: e, since: 0 };
    let with = |x: Val| KS { val: Some(x), exp: if v.is_some() { e } else { (0, 0) }, since: 0 };
    let n = |i: usize| a.get(i).and_then(|x| parse_int(x));
    match name.as_str() {
        "FLUSHALL" => cx.out.push(KS::none()),
        "DEL" => cx.int(i64::from(v.is_some()), KS::none()),
        "EXISTS" => cx.int(i64::from(v.is_some()), same()),
        "GET" => match v {
            None => cx.ok(|r| *r == Resp::Nil, same()),
            Some(Val::Str(s)) => cx.ok(|r| same_text(r, &s.text()), same()),
            _ => cx.err(same()),
        },
        "SET" | "SETEX" | "PSETEX" => {
            let (val, mut exp, mut keep, mut nx, mut xx, mut get) = match name.as_str() {
                "SETEX" => (sc_of(&c[3]), exp_plus(w, n(2).unwrap_or(0) as u64 * 1000), false, false, false, false),
                "PSETEX" => (sc_of(&c[3]), exp_plus(w, n(2).unwrap_or(0) as u64), false, false, false, false),
                _ => (sc_of(&c[2]), (0, 0), false, false, false, false),
            };
            if name == "SET" {
                let mut i = 3;
                while i < a.len() {
                    match up(&a[i]).as_str() {
                        "NX" => nx = true,
                        "XX" => xx = true,
                        "GET" => get = true,
                        "KEEPTTL" => keep = true,
                        o => {
                            let x = n(i + 1).unwrap_or(0) as u64;
                            exp = match o {
                                "EX" => exp_plus(w, x * 1000),
                                "PX" => exp_plus(w, x),
                                "EXAT" => (x * 1000, x * 1000),
                                _ => (x, x),
                            };
                            i += 1;
                        }
                    }
                    i += 1;
                }
            }
            if get && !matches!(v, None | Some(Val::Str(_))) {
                // Redis refuses; a server that overwrites and reports an error breaks C01
                cx.err(same());
                return;
            }
            let fails = (nx && v.is_some()) || (xx && v.is_none());
            let new = if fails {
                same()
            } else {
                KS {
                    val: Some(Val::Str(val)),
                    exp: if keep {
                        if v.is_some() {
                            e
                        } else {
                            (0, 0)
                        }
                    } else {
                        exp
                    },
                    since: 0,
                }
            };
            if get {
                match v {
                    Some(Val::Str(s)) => cx.ok(|r| same_text(r, &s.text()), new),
                    _ => cx.ok(|r| *r == Resp::Nil, new),
                }
            } else if fails {
                cx.ok(|r| r.is_ok() || *r == Resp::Nil, new);
            } else {
                cx.ok(Resp::is_ok, new);
            }
        }
        "INCR" | "DECR" | "INCRBY" | "DECRBY" => {
            let d: i128 = match name.as_str() {
                "INCR" => 1,
                "DECR" => -1,
                "INCRBY" => i128::from(n(2).unwrap_or(0)),
                _ => -i128::from(n(2).unwrap_or(0)),
            };
            let old = match v {
                None => 0,
                Some(Val::Str(s)) => match s.int() {
                    Some(i) => i,
                    None => return cx.err(same()),
                },
                _ => return cx.err(same()),
            };
            match i64::try_from(i128::from(old) + d) {
                Ok(x) => cx.int(x, with(Val::Str(Sc::I(x)))),
                Err(_) => cx.err(same()),
            }
        }
        "EXPIRE" | "PEXPIRE" | "EXPIREAT" | "PEXPIREAT" => {
            if v.is_none() {
                return cx.int(0, same());
            }
            let x = n(2).unwrap_or(0) as u64;
            let new = match name.as_str() {
                "EXPIRE" => exp_plus(w, x * 1000),
                "PEXPIRE" => exp_plus(w, x),
                "EXPIREAT" => (x * 1000, x * 1000),
                _ => (x, x),
            };
            let (mut nx, mut xx, mut gt, mut lt) = (false, false, false, false);
            for o in &a[3..] {
                match up(o).as_str() {
                    "NX" => nx = true,
                    "XX" => xx = true,
                    "GT" => gt = true,
                    _ => lt = true,
                }
            }
            let has = e != (0, 0);
            // (can succeed, can fail)
            let (mut may, mut maynot) = (true, false);
            if nx && has {
                (may, maynot) = (false, true);
            }
            if xx && !has {
                (may, maynot) = (false, true);
            }
            if nx && (gt || lt) {
                (may, maynot) = (false, true);
            }
            if may && gt {
                if !has {
                    (may, maynot) = (false, true);
                } else {
                    may = e.0 < new.1;
                    maynot = e.1 >= new.0;
                }
            }
            if may && lt && has {
                may = e.1 > new.0;
                maynot = e.0 <= new.1;
            }
            if may {
                cx.int(1, KS { val: v.cloned(), exp: new, since: 0 });
            }
            if maynot {
                cx.int(0, same());
            }
        }
        "TTL" | "PTTL" => {
            if v.is_none() {
                return cx.int(-2, same());
            }
            if e == (0, 0) {
                return cx.int(-1, same());
            }
            match cx.r {
                None => cx.out.push(same()),
                Some(Resp::Int(t)) if *t >= 0 => {
                    let t = *t as u64;
                    // remaining ms in [t0, t1]
                    let (t0, t1) = if name == "PTTL" { (t, t) } else { ((t * 1000).saturating_sub(1000), t * 1000 + 1000) };
                    let lo = e.0.max(w.lo.saturating_add(t0));
                    let hi = e.1.min(w.hi.saturating_add(t1));
                    if lo <= hi {
                        cx.out.push(KS { val: v.cloned(), exp: if name == "PTTL" { (lo, hi) } else { e }, since: 0 });
                    }
                }
                _ => {}
            }
        }
        "HSET" | "HSETNX" => {
            let mut h = match v {
                None => BTreeMap::new(),
                Some(Val::Hash(h)) => h.clone(),
                _ => return cx.err(same()),
            };
            let mut added = 0;
            let mut i = 2;
            while i + 1 < a.len() {
                if name == "HSET" || !h.contains_key(&a[i]) {
                    if h.insert(a[i].clone(), sc_of(&c[i + 1])).is_none() {
                        added += 1;
                    }
                }
                i += 2;
            }
            cx.int(added, with(Val::Hash(h)));
        }
        "HDEL" => match v {
            None => cx.int(0, same()),
            Some(Val::Hash(h)) => {
                let mut h = h.clone();
                let k = a[2..].iter().filter(|f| h.remove(*f).is_some()).count();
                cx.int(k as i64, with(Val::Hash(h)));
            }
            _ => cx.err(same()),
        },
        "HEXISTS" => match v {
            None => cx.int(0, same()),
            Some(Val::Hash(h)) => cx.int(i64::from(h.contains_key(&a[2])), same()),
            _ => cx.err(same()),
        },
        "HGET" => match v {
            None => cx.ok(|r| *r == Resp::Nil, same()),
            Some(Val::Hash(h)) => match h.get(&a[2]) {
                None => cx.ok(|r| *r == Resp::Nil, same()),
                Some(s) => cx.ok(|r| same_text(r, &s.text()), same()),
            },
            _ => cx.err(same()),
        },
        "HMGET" => {
            let e0 = BTreeMap::new();
            let h = match v {
                None => &e0,
                Some(Val::Hash(h)) => h,
                _ => return cx.err(same()),
            };
            let want: Vec<Option<Bytes>> = a[2..].iter().map(|f| h.get(f).map(Sc::text)).collect();
            cx.ok(|r| matches!(r, Resp::Array(_)) && texts(r).as_ref() == Some(&want), same());
        }
        "HGETALL" => {
            let e0 = BTreeMap::new();
            let h = match v {
                None => &e0,
                Some(Val::Hash(h)) => h,
                _ => return cx.err(same()),
            };
            cx.ok(
                |r| match texts(r) {
                    Some(t) if t.len() == 2 * h.len() => {
                        let mut seen = BTreeSet::new();
                        t.chunks(2).all(|p| match (&p[0], &p[1]) {
                            (Some(f), Some(x)) => seen.insert(f.clone()) && h.get(f).map(Sc::text).as_ref() == Some(x),
                            _ => false,
                        })
                    }
                    _ => false,
                },
                same(),
            );
        }
        "HINCRBY" => {
            let mut h = match v {
                None => BTreeMap::new(),
                Some(Val::Hash(h)) => h.clone(),
                _ => return cx.err(same()),
            };
            let old = match h.get(&a[2]) {
                None => 0,
                Some(s) => match s.int() {
                    Some(i) => i,
                    None => return cx.err(same()),
                },
            };
            match old.checked_add(n(3).unwrap_or(0)) {
                Some(x) => {
                    h.insert(a[2].clone(), Sc::I(x));
                    cx.int(x, with(Val::Hash(h)));
                }
                None => cx.err(same()),
            }
        }
        "LPUSH" | "RPUSH" | "LPUSHX" | "RPUSHX" => {
            let mut l = match v {
                None => {
                    if name.ends_with('X') {
                        return cx.int(0, same());
                    }
                    VecDeque::new()
                }
                Some(Val::List(l)) => l.clone(),
                _ => return cx.err(same()),
            };
            for x in &c[2..] {
                if name.starts_with('L') {
                    l.push_front(sc_of(x));
                } else {
                    l.push_back(sc_of(x));
                }
            }
            let k = l.len() as i64;
            cx.int(k, with(Val::List(l)));
        }
        "LPOP" | "RPOP" => match v {
            None => cx.ok(|r| list_is(r, &[]), same()),
            Some(Val::List(l)) => {
                let mut l = l.clone();
                let k = n(2).unwrap_or(1);
                let mut got = vec![];
                for _ in 0..k {
                    match if name == "LPOP" { l.pop_front() } else { l.pop_back() } {
                        Some(x) => got.push(x.text()),
                        None => break,
                    }
                }
                cx.ok(|r| list_is(r, &got), with(Val::List(l)));
            }
            _ => cx.err(same()),
        },
        "LLEN" => match v {
            None => cx.int(0, same()),
            Some(Val::List(l)) => cx.int(l.len() as i64, same()),
            _ => cx.err(same()),
        },
        "LRANGE" => match v {
            None => cx.ok(|r| list_is(r, &[]), same()),
            Some(Val::List(l)) => {
                let (s, t) = rank_range(n(2).unwrap_or(0), n(3).unwrap_or(-1), l.len());
                let want: Vec<Bytes> = l.iter().skip(s).take(t.saturating_sub(s)).map(Sc::text).collect();
                cx.ok(|r| matches!(r, Resp::Array(_)) && list_is(r, &want), same());
            }
            _ => cx.err(same()),
        },
        "SADD" => {
            let mut s = match v {
                None => BTreeSet::new(),
                Some(Val::Set(s)) => s.clone(),
                _ => return cx.err(same()),
            };
            let k = a[2..].iter().filter(|m| s.insert((*m).clone())).count();
            cx.int(k as i64, with(Val::Set(s)));
        }
        "SREM" => match v {
            None => cx.int(0, same()),
            Some(Val::Set(s)) => {
                let mut s = s.clone();
                let k = a[2..].iter().filter(|m| s.remove(*m)).count();
                cx.int(k as i64, with(Val::Set(s)));
            }
            _ => cx.err(same()),
        },
        "SISMEMBER" => match v {
            None => cx.int(0, same()),
            Some(Val::Set(s)) => cx.int(i64::from(s.contains(&a[2])), same()),
            _ => cx.err(same()),
        },
        "SMISMEMBER" => {
            let e0 = BTreeSet::new();
            let s = match v {
                None => &e0,
                Some(Val::Set(s)) => s,
                _ => return cx.err(same()),
            };
            let want: Vec<Resp> = a[2..].iter().map(|m| Resp::Int(i64::from(s.contains(m)))).collect();
            cx.ok(|r| *r == Resp::Array(want.clone()), same());
        }
        "SMEMBERS" => {
            let e0 = BTreeSet::new();
            let s = match v {
                None => &e0,
                Some(Val::Set(s)) => s,
                _ => return cx.err(same()),
            };
            cx.ok(
                |r| {
                    texts(r).map_or(false, |t| {
                        let n = t.len();
                        let got: BTreeSet<Bytes> = t.into_iter().flatten().collect();
                        n == s.len() && got == *s
                    })
                },
                same(),
            );
        }
        "ZADD" => {
            let (mut nx, mut xx, mut gt, mut lt, mut ch, mut incr) = (false, false, false, false, false, false);
            let mut i = 2;
            while i < a.len() {
                match up(&a[i]).as_str() {
                    "NX" => nx = true,
                    "XX" => xx = true,
                    "GT" => gt = true,
                    "LT" => lt = true,
                    "CH" => ch = true,
                    "INCR" => incr = true,
                    _ => break,
                }
                i += 1;
            }
            let mut z = match v {
                None => BTreeMap::new(),
                Some(Val::Z(z)) => z.clone(),
                _ => return cx.err(same()),
            };
            let (mut added, mut changed) = (0, 0);
            let mut last = None;
            while i + 1 < a.len() {
                let s: f64 = String::from_utf8_lossy(&a[i]).parse().unwrap_or(f64::NAN);
                let m = &a[i + 1];
                i += 2;
                match z.get(m).copied() {
                    None => {
                        if xx {
                            last = None;
                            continue;
                        }
                        z.insert(m.clone(), F::new(s));
                        added += 1;
                        last = Some(s);
                    }
                    Some(o) => {
                        let s = if incr { o.get() + s } else { s };
                        if nx || (gt && s <= o.get()) || (lt && s >= o.get()) {
                            last = None;
                            continue;
                        }
                        if F::new(s) != o {
                            changed += 1;
                            z.insert(m.clone(), F::new(s));
                        }
                        last = Some(s);
                    }
                }
            }
            let fresh = v.is_none() && z.is_empty();
            let ks = if fresh { KS::none() } else { with(Val::Z(z)) };
            let want = if ch { added + changed } else { added };
            let fit = |r: &Resp| {
                if incr {
                    r.int().is_some() || (last.is_none() && *r == Resp::Nil) || last.map_or(false, |l| is_float(r, l))
                } else {
                    r.int() == Some(want)
                }
            };
            cx.ok(fit, ks.clone());
            if fresh {
                // an empty sorted set may be left behind (Redis: no key)
                cx.ok(fit, KS { val: Some(Val::Z(BTreeMap::new())), exp: (0, 0), since: 0 });
            }
        }
        "ZREM" => match v {
            None => cx.int(0, same()),
            Some(Val::Z(z)) => {
                let mut z = z.clone();
                let k = a[2..].iter().filter(|m| z.remove(*m).is_some()).count();
                cx.int(k as i64, with(Val::Z(z)));
            }
            _ => cx.err(same()),
        },
        "ZRANK" | "ZREVRANK" => match v {
            None => cx.ok(|r| *r == Resp::Nil, same()),
            Some(Val::Z(z)) => {
                let o = ordered(z);
                match o.iter().position(|x| x.0 == a[2]) {
                    None => cx.ok(|r| *r == Resp::Nil, same()),
                    Some(p) => {
                        let p = if name == "ZRANK" { p } else { o.len() - 1 - p };
                        cx.int(p as i64, same());
                    }
                }
            }
            _ => cx.err(same()),
        },
        "ZREMRANGEBYRANK" | "ZREMRANGEBYSCORE" | "ZREMRANGEBYLEX" => match v {
            None => cx.int(0, same()),
            Some(Val::Z(z)) => {
                let o = ordered(z);
                let dead: Vec<Bytes> = match name.as_str() {
                    "ZREMRANGEBYRANK" => {
                        let (s, t) = rank_range(n(2).unwrap_or(0), n(3).unwrap_or(-1), o.len());
                        o[s..t.max(s)].iter().map(|x| x.0.clone()).collect()
                    }
                    "ZREMRANGEBYSCORE" => match (score_bound(&a[2]), score_bound(&a[3])) {
                        (Some(l), Some(h)) => o.iter().filter(|x| in_score(x.1, l, h)).map(|x| x.0.clone()).collect(),
                        _ => return cx.err(same()),
                    },
                    _ => match (lex_bound(&a[2]), lex_bound(&a[3])) {
                        (Some(l), Some(h)) => o.iter().filter(|x| in_lex(&x.0, &l, &h)).map(|x| x.0.clone()).collect(),
                        _ => return cx.err(same()),
                    },
                };
                let mut z = z.clone();
                for m in &dead {
                    z.remove(m);
                }
                cx.int(dead.len() as i64, with(Val::Z(z)));
            }
            _ => cx.err(same()),
        },
        "ZRANGE" | "ZREVRANGE" | "ZRANGEBYSCORE" | "ZREVRANGEBYSCORE" | "ZRANGEBYLEX" | "ZREVRANGEBYLEX" => {
            let e0 = BTreeMap::new();
            let z = match v {
                None => &e0,
                Some(Val::Z(z)) => z,
                _ => return cx.err(same()),
            };
            let (mut by, mut rev, mut scores, mut limit) = match name.as_str() {
                "ZRANGE" => ('r', false, false, None),
                "ZREVRANGE" => ('r', true, false, None),
                "ZRANGEBYSCORE" => ('s', false, false, None),
                "ZREVRANGEBYSCORE" => ('s', true, false, None),
                "ZRANGEBYLEX" => ('l', false, false, None),
                _ => ('l', true, false, None),
            };
            let mut i = 4;
            while i < a.len() {
                match up(&a[i]).as_str() {
                    "BYSCORE" => by = 's',
                    "BYLEX" => by = 'l',
                    "REV" => rev = true,
                    "WITHSCORES" => scores = true,
                    "LIMIT" => {
                        limit = Some((n(i + 1).unwrap_or(0), n(i + 2).unwrap_or(-1)));
                        i += 2;
                    }
                    _ => {}
                }
                i += 1;
            }
            let mut o = ordered(z);
            let (x, y) = if rev && by != 'r' { (&a[3], &a[2]) } else { (&a[2], &a[3]) };
            match by {
                's' => match (score_bound(x), score_bound(y)) {
                    (Some(l), Some(h)) => o.retain(|t| in_score(t.1, l, h)),
                    _ => return cx.err(same()),
                },
                'l' => match (lex_bound(x), lex_bound(y)) {
                    (Some(l), Some(h)) => o.retain(|t| in_lex(&t.0, &l, &h)),
                    _ => return cx.err(same()),
                },
                _ => {}
            }
            if rev {
                o.reverse();
            }
            if by == 'r' {
                let (s, t) = rank_range(n(2).unwrap_or(0), n(3).unwrap_or(-1), o.len());
                o = o[s..t.max(s)].to_vec();
            }
            if let Some((off, cnt)) = limit {
                let off = off.max(0) as usize;
                let cnt = if cnt < 0 { usize::MAX } else { cnt as usize };
                o = o.into_iter().skip(off).take(cnt).collect();
            }
            cx.ok(
                |r| match r {
                    Resp::Array(t) => {
                        let k = if scores { 2 } else { 1 };
                        t.len() == o.len() * k
                            && o.iter()
                                .enumerate()
                                .all(|(i, x)| same_text(&t[i * k], &x.0) && (!scores || is_float(&t[i * k + 1], x.1.get())))
                    }
                    _ => false,
                },
                same(),
            );
        }
        "DUMP" => match v {
            None => cx.ok(|r| *r == Resp::Nil, same()),
            Some(x) => match cx.r {
                Some(Resp::Bulk(p)) => {
                    if let Some((d, _)) = crate::wire::decode_value(p) {
                        if d.norm() == x.norm() {
                            cx.out.push(same());
                        }
                    }
                }
                None => cx.out.push(same()),
                _ => {}
            },
        },
        "RESTORE" => {
            let mut replace = false;
            let mut abs = false;
            let mut i = 4;
            while i < a.len() {
                match up(&a[i]).as_str() {
                    "REPLACE" => replace = true,
                    "ABSTTL" => abs = true,
                    "IDLETIME" | "FREQ" => i += 1,
                    _ => {}
                }
                i += 1;
            }
            let t = n(2).unwrap_or(0) as u64;
            if v.is_some() && !replace {
                return cx.err(same());
            }
            match crate::wire::decode_data(&a[3]) {
                None => cx.err(same()),
                Some(d) => {
                    let exp = if t == 0 {
                        (0, 0)
                    } else if abs {
                        (t, t)
                    } else {
                        exp_plus(w, t)
                    };
                    cx.ok(Resp::is_ok, KS { val: Some(d), exp, since: 0 });
                }
            }
        }
        "OBJECT" => match up(a.get(1).map_or(&b""[..], |x| &x[..])).as_str() {
            "IDLETIME" => {
                if v.is_none() {
                    cx.err(same());
                } else {
                    cx.ok(|r| r.int().map_or(false, |i| i >= 0), same());
                }
            }
            "FREQ" => {
                if v.is_none() {
                    cx.err(same());
                } else {
                    cx.ok(|r| r.int().map_or(false, |i| (0..=65_535).contains(&i)), same());
                }
            }
            _ => cx.ok(Resp::is_ok, same()),
        },
        "PING" => cx.ok(|r| r.text().as_deref() == Some(b"PONG"), same()),
        _ => cx.out.push(same()),
    }
}
