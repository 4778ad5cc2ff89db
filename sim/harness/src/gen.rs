//! Command generator: random but meaningful commands over a small key space.
use crate::{
    cmd,
    model::{Bytes, Sc, Val, F},
    plan::*,
    wire,
};
use simrt::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Str,
    Num,
    Hash,
    List,
    Set,
    Z,
}
pub const KINDS: [K; 6] = [K::Str, K::Num, K::Hash, K::List, K::Set, K::Z];

#[derive(Clone)]
pub struct Opts {
    /// share (percent) of reads
    pub reads: u64,
    /// percent of commands that deal with expiry
    pub ttl: u64,
    /// bounds of relative expiries in ms
    pub ttl_ms: (u64, u64),
    /// wall clock (ms) at which absolute expiries are centred
    pub wall: u64,
    /// percent of commands of another type than the key's own
    pub wrong: u64,
    pub del: u64,
    pub restore: u64,
    pub object: u64,
    pub multi: bool,
    pub binary: bool,
    pub big: u64,
    /// EX style expiry (evaluated when the command runs) allowed
    pub rel: bool,
    pub incr_extreme: bool,
}
impl Opts {
    pub fn kv(wall: u64) -> Self {
        Opts {
            reads: 35,
            ttl: 0,
            ttl_ms: (5, 3_000),
            wall,
            wrong: 6,
            del: 5,
            restore: 4,
            object: 2,
            multi: true,
            binary: true,
            big: 1,
            rel: true,
            incr_extreme: true,
        }
    }
}
pub struct Gen {
    pub r: Rng,
    pub o: Opts,
    pub keys: Vec<(Bytes, K)>,
    pub n: u64,
    /// replicated keys with short expiries: only commands whose effect does not depend on the expiry
    pub ttl_keys: BTreeSet<Bytes>,
}
impl Gen {
    pub fn new(r: Rng, o: Opts, nkeys: usize) -> Self {
        let mut g = Gen { r, o, keys: vec![], n: 0, ttl_keys: BTreeSet::new() };
        // a couple of kinds per run, so that keys are contended
        let k0 = *g.r.pick(&KINDS);
        let k1 = *g.r.pick(&KINDS);
        for i in 0..nkeys {
            let kind = *g.r.pick(&[k0, k0, k1]);
            let name = match g.r.below(8) {
                0 => format!("{{t}}k{i}"),
                3 => format!("{{{}}}k{i}", g.r.pick(&crate::wire::EDGES)),
                1 if g.o.binary => format!("k{i}\r\n"),
                2 => format!("{{}}k{i}"),
                4 if i == 0 => String::new(),
                5 if i == 1 => "}k{".into(),
                5 => format!("{{k{i}"),
                _ => format!("k{i}"),
            };
            g.keys.push((name.into_bytes(), kind));
        }
        g
    }
    fn tok(&mut self) -> Bytes {
        self.n += 1;
        format!("t{}", self.n).into_bytes()
    }
    pub fn value(&mut self) -> Arg {
        self.n += 1;
        let n = self.n;
        match self.r.below(20) {
            0 => Arg::I(n as i64),
            1 => Arg::B(n.to_string().into_bytes()),
            2 if self.o.binary => Arg::B([&b"\r\n$3\r\n\x00\xff"[..], n.to_string().as_bytes()].concat()),
            3 if self.o.binary => Arg::B(filler(1 + self.r.below(40) as usize, n as u8)),
            4 => Arg::S(format!("s{n}").into_bytes()),
            5 => Arg::B(vec![]),
            x if x < 5 + self.o.big => Arg::B(filler(self.r.log_range(300, 60_000) as usize, n as u8)),
            _ => Arg::B(format!("v{n}").into_bytes()),
        }
    }
    fn field(&mut self) -> Arg {
        b(format!("f{}", self.r.below(4)))
    }
    fn member(&mut self) -> Arg {
        match self.r.below(12) {
            0 if self.o.binary => b(b"m\r\n:1\r\n"),
            1 if self.o.binary => b(b"\xff\x00\xfe"),
            _ => b(format!("m{}", self.r.below(6))),
        }
    }
    fn zmember(&mut self) -> Arg {
        b(format!("{}", (b'a' + self.r.below(6) as u8) as char))
    }
    fn score(&mut self) -> Arg {
        b(match self.r.below(12) {
            0 => "-1.5".to_string(),
            1 => "0".to_string(),
            2 => "1e300".to_string(),
            3 => "inf".to_string(),
            4 => "2.25".to_string(),
            _ => self.r.range(1, 6).to_string(),
        })
    }
    fn finite(&mut self) -> Arg {
        b((self.r.range(0, 8) as i64 - 3).to_string())
    }
    fn sbound(&mut self) -> Arg {
        let x = self.r.range(0, 7);
        b(match self.r.below(6) {
            0 => "-inf".to_string(),
            1 => "+inf".to_string(),
            2 => format!("({x}"),
            _ => x.to_string(),
        })
    }
    fn idx(&mut self) -> Arg {
        b((self.r.below(9) as i64 - 4).to_string())
    }
    fn ttl_ms(&mut self) -> u64 {
        let (a, z) = self.o.ttl_ms;
        self.r.log_range(a, z)
    }
    fn abs_ms(&mut self) -> u64 {
        let t = self.ttl_ms();
        let spread = self.r.below(self.o.ttl_ms.1.max(2));
        self.o.wall + t + spread
    }
    /// A command on one of the keys.
    pub fn cmd(&mut self) -> Cmd {
        let i = self.r.usize(self.keys.len());
        let (key, kind) = self.keys[i].clone();
        self.cmd_on(&key, kind)
    }
    pub fn cmd_on(&mut self, key: &[u8], kind: K) -> Cmd {
        if self.ttl_keys.contains(key) {
            return self.plain_ttl_cmd(key);
        }
        if self.r.below(100) < self.o.ttl {
            return self.ttl_cmd(key, kind);
        }
        if self.r.below(100) < self.o.del {
            let name = if self.r.chance(2, 3) { "DEL" } else { "EXISTS" };
            let mut c = vec![b(name), b(key)];
            if self.o.multi && self.r.chance(1, 4) {
                for _ in 0..self.r.range(1, 2) {
                    let j = self.r.usize(self.keys.len());
                    c.push(b(&self.keys[j].0));
                }
            }
            return c;
        }
        if self.r.below(100) < self.o.restore {
            return self.restore_cmd(key, kind);
        }
        if self.r.below(100) < self.o.object {
            return match self.r.below(3) {
                0 => vec![b("OBJECT"), b("IDLETIME"), b(key)],
                1 => vec![b("OBJECT"), b("FREQ"), b(key)],
                _ => cmd!["PING"],
            };
        }
        let kind = if self.r.below(100) < self.o.wrong { *self.r.pick(&KINDS) } else { kind };
        if self.r.below(100) < self.o.reads {
            self.read_cmd(key, kind)
        } else {
            self.write_cmd(key, kind)
        }
    }
    pub fn some_val(&mut self, kind: K) -> Val {
        let t = |g: &mut Self| Sc::T(g.tok());
        match kind {
            K::Str => Val::Str(t(self)),
            K::Num => Val::Str(Sc::I(self.r.below(100) as i64)),
            K::Hash => {
                let mut m = BTreeMap::new();
                for i in 0..self.r.range(1, 3) {
                    m.insert(format!("f{i}").into_bytes(), t(self));
                }
                Val::Hash(m)
            }
            K::List => {
                let mut l = VecDeque::new();
                for _ in 0..self.r.range(1, 3) {
                    l.push_back(t(self));
                }
                Val::List(l)
            }
            K::Set => {
                let mut s = BTreeSet::new();
                for i in 0..self.r.range(1, 3) {
                    s.insert(format!("m{i}").into_bytes());
                }
                Val::Set(s)
            }
            K::Z => {
                let mut z = BTreeMap::new();
                for i in 0..self.r.range(1, 3) {
                    z.insert(vec![b'a' + i as u8], F::new(self.r.below(5) as f64));
                }
                Val::Z(z)
            }
        }
    }
    pub fn restore_cmd(&mut self, key: &[u8], kind: K) -> Cmd {
        if self.r.chance(1, 3) {
            return vec![b("DUMP"), b(key)];
        }
        let (ttl, abs) = if self.o.ttl > 0 && self.r.chance(1, 2) {
            if self.o.rel && self.r.chance(1, 2) {
                (self.ttl_ms(), false)
            } else {
                (self.abs_ms(), true)
            }
        } else {
            (0, false)
        };
        let p = if self.r.chance(1, 3) {
            b("@dump")
        } else {
            let v = self.some_val(kind);
            b(wire::payload(&v))
        };
        let mut c = vec![b("RESTORE"), b(key), b(ttl.to_string()), p];
        if self.r.chance(2, 3) {
            c.push(b("REPLACE"));
        }
        if abs {
            c.push(b("ABSTTL"));
        }
        c
    }
    /// Overwrites and deletes: what they do does not depend on whether the old value had expired.
    pub fn plain_ttl_cmd(&mut self, key: &[u8]) -> Cmd {
        let k = b(key);
        let t = 1 + self.r.log_range(1, 3_000);
        let wall = self.o.wall + self.r.below(6_000);
        match self.r.below(10) {
            0 => vec![b("DEL"), k],
            1 => vec![b("SET"), k, self.value()],
            2 => vec![b("SETEX"), k, b((1 + t / 1000).to_string()), self.value()],
            3 | 4 => vec![b("PSETEX"), k, b(t.to_string()), self.value()],
            5 => vec![b("SET"), k, self.value(), b("PXAT"), b(wall.to_string())],
            6 => {
                let kind = *self.r.pick(&KINDS);
                let v = self.some_val(kind);
                vec![b("RESTORE"), k, b(t.to_string()), b(wire::payload(&v)), b("REPLACE")]
            }
            7 => vec![b(if self.r.chance(1, 2) { "PTTL" } else { "DUMP" }), k],
            _ => vec![b("SET"), k, self.value(), b("PX"), b(t.to_string())],
        }
    }
    pub fn ttl_cmd(&mut self, key: &[u8], kind: K) -> Cmd {
        let rel = self.o.rel;
        let t = self.ttl_ms();
        let secs = b((1 + t / 1000).to_string());
        let ms = b(t.to_string());
        let ams = self.abs_ms();
        match self.r.below(14) {
            0 if rel => vec![b("SETEX"), b(key), secs, self.value()],
            1 | 2 if rel => vec![b("PSETEX"), b(key), ms, self.value()],
            3 | 4 => {
                let mut c = vec![b("SET"), b(key), self.value()];
                match self.r.below(6) {
                    0 if rel => c.extend([b("EX"), secs]),
                    1 if rel => c.extend([b("PX"), ms]),
                    2 => c.extend([b("EXAT"), b((ams / 1000 + 1).to_string())]),
                    3 => c.extend([b("PXAT"), b(ams.to_string())]),
                    4 => c.push(b("KEEPTTL")),
                    _ if rel => c.extend([b("PX"), ms]),
                    _ => c.extend([b("PXAT"), b(ams.to_string())]),
                }
                match self.r.below(6) {
                    0 => c.push(b("NX")),
                    1 => c.push(b("XX")),
                    _ => {}
                }
                if self.r.chance(1, 5) {
                    c.push(b("GET"));
                }
                c
            }
            5 | 6 | 7 => {
                let mut c = match self.r.below(4) {
                    0 if rel => vec![b("EXPIRE"), b(key), secs],
                    1 => vec![b("EXPIREAT"), b(key), b((ams / 1000 + 1).to_string())],
                    2 if rel => vec![b("PEXPIRE"), b(key), ms],
                    _ => vec![b("PEXPIREAT"), b(key), b(ams.to_string())],
                };
                match self.r.below(8) {
                    0 => c.push(b("NX")),
                    1 => c.push(b("XX")),
                    2 => c.push(b("GT")),
                    3 => c.push(b("LT")),
                    4 => c.extend([b("XX"), b("GT")]),
                    _ => {}
                }
                c
            }
            8 => vec![b("SET"), b(key), self.value()],
            9 => vec![b("TTL"), b(key)],
            10 => vec![b("PTTL"), b(key)],
            11 => vec![b("EXISTS"), b(key)],
            12 => vec![b("DEL"), b(key)],
            _ => self.write_cmd(key, kind),
        }
    }
    pub fn read_cmd(&mut self, key: &[u8], kind: K) -> Cmd {
        let k = b(key);
        match kind {
            K::Str | K::Num => match self.r.below(5) {
                0 => vec![b("EXISTS"), k],
                1 => vec![b(if self.r.chance(1, 2) { "TTL" } else { "PTTL" }), k],
                _ => vec![b("GET"), k],
            },
            K::Hash => match self.r.below(4) {
                0 => vec![b("HGET"), k, self.field()],
                1 => vec![b("HMGET"), k, self.field(), self.field()],
                2 => vec![b("HEXISTS"), k, self.field()],
                _ => vec![b("HGETALL"), k],
            },
            K::List => match self.r.below(3) {
                0 => vec![b("LLEN"), k],
                1 => vec![b("LRANGE"), k, self.idx(), self.idx()],
                _ => vec![b("LRANGE"), k, b("0"), b("-1")],
            },
            K::Set => match self.r.below(3) {
                0 => vec![b("SISMEMBER"), k, self.member()],
                1 => vec![b("SMISMEMBER"), k, self.member(), self.member()],
                _ => vec![b("SMEMBERS"), k],
            },
            K::Z => {
                let ws = self.r.chance(1, 2);
                match self.r.below(9) {
                    0 => vec![b("ZRANK"), k, self.zmember()],
                    1 => vec![b("ZREVRANK"), k, self.zmember()],
                    2 => {
                        let mut c = vec![b("ZRANGEBYSCORE"), k, self.sbound(), self.sbound()];
                        if ws {
                            c.push(b("WITHSCORES"));
                        }
                        if self.r.chance(1, 3) {
                            c.extend([b("LIMIT"), b(self.r.below(3).to_string()), b(self.r.below(4).to_string())]);
                        }
                        c
                    }
                    3 => {
                        let mut c = vec![b("ZREVRANGEBYSCORE"), k, self.sbound(), self.sbound()];
                        if ws {
                            c.push(b("WITHSCORES"));
                        }
                        c
                    }
                    4 => vec![b("ZREVRANGE"), k, self.idx(), self.idx()],
                    5 => {
                        let mut c = vec![b("ZRANGE"), k, self.sbound(), self.sbound(), b("BYSCORE")];
                        if self.r.chance(1, 3) {
                            c.push(b("REV"));
                        }
                        if ws {
                            c.push(b("WITHSCORES"));
                        }
                        c
                    }
                    6 => {
                        let mut c = vec![b("ZRANGE"), k, self.idx(), self.idx()];
                        if ws {
                            c.push(b("WITHSCORES"));
                        }
                        c
                    }
                    _ => vec![b("ZRANGE"), k, b("0"), b("-1"), b("WITHSCORES")],
                }
            }
        }
    }
    pub fn write_cmd(&mut self, key: &[u8], kind: K) -> Cmd {
        let k = b(key);
        match kind {
            K::Str => {
                let mut c = vec![b("SET"), k, self.value()];
                match self.r.below(6) {
                    0 => c.push(b("NX")),
                    1 => c.push(b("XX")),
                    _ => {}
                }
                if self.r.chance(1, 4) {
                    c.push(b("GET"));
                }
                c
            }
            K::Num => {
                let d = if self.o.incr_extreme && self.r.chance(1, 25) {
                    *self.r.pick(&[i64::MAX, i64::MIN + 1, i64::MAX - 3])
                } else {
                    self.r.below(9) as i64 - 4
                };
                match self.r.below(8) {
                    0 | 1 => vec![b("INCR"), k],
                    2 => vec![b("DECR"), k],
                    3 | 4 => vec![b("INCRBY"), k, b(d.to_string())],
                    5 => vec![b("DECRBY"), k, b(d.to_string())],
                    6 => vec![b("SET"), k, Arg::I(self.r.below(50) as i64)],
                    _ => vec![b("SET"), k, b(self.r.below(50).to_string()), b("GET")],
                }
            }
            K::Hash => match self.r.below(8) {
                0..=2 => {
                    let mut c = vec![b("HSET"), k];
                    for _ in 0..self.r.range(1, 3) {
                        c.push(self.field());
                        c.push(self.value());
                    }
                    c
                }
                3 => vec![b("HSETNX"), k, self.field(), self.value()],
                4 => vec![b("HDEL"), k, self.field(), self.field()],
                5 => vec![b("HDEL"), k, self.field()],
                _ => vec![b("HINCRBY"), k, b(format!("n{}", self.r.below(2))), self.finite()],
            },
            K::List => match self.r.below(9) {
                0 | 1 => vec![b("LPUSH"), k, b(self.tok()), b(self.tok())],
                2 | 3 => vec![b("RPUSH"), k, self.value()],
                4 => vec![b("LPUSHX"), k, b(self.tok())],
                5 => vec![b("RPUSHX"), k, b(self.tok())],
                6 => vec![b("LPOP"), k],
                7 => vec![b("RPOP"), k, b(self.r.range(1, 3).to_string())],
                _ => vec![b("RPOP"), k],
            },
            K::Set => match self.r.below(3) {
                0 => vec![b("SREM"), k, self.member(), self.member()],
                _ => {
                    let mut c = vec![b("SADD"), k];
                    for _ in 0..self.r.range(1, 3) {
                        c.push(self.member());
                    }
                    c
                }
            },
            K::Z => match self.r.below(12) {
                0 => vec![b("ZREM"), k, self.zmember()],
                1 => vec![b("ZREMRANGEBYRANK"), k, self.idx(), self.idx()],
                2 => vec![b("ZREMRANGEBYSCORE"), k, self.sbound(), self.sbound()],
                3 => vec![b("ZADD"), k, b("INCR"), self.finite(), self.zmember()],
                _ => {
                    let mut c = vec![b("ZADD"), k];
                    match self.r.below(8) {
                        0 => c.push(b("NX")),
                        1 => c.push(b("XX")),
                        2 => c.push(b("GT")),
                        3 => c.push(b("LT")),
                        _ => {}
                    }
                    if self.r.chance(1, 4) {
                        c.push(b("CH"));
                    }
                    for _ in 0..self.r.range(1, 3) {
                        c.push(self.score());
                        c.push(self.zmember());
                    }
                    c
                }
            },
        }
    }
    /// A lexicographic query is defined for sets whose members share one score.
    pub fn lex_cmd(&mut self, key: &[u8]) -> Cmd {
        let mut bound = || {
            let c = (b'a' + self.r.below(6) as u8) as char;
            b(match self.r.below(5) {
                0 => "-".to_string(),
                1 => "+".to_string(),
                2 => format!("({c}"),
                _ => format!("[{c}"),
            })
        };
        let (x, y) = (bound(), bound());
        match self.r.below(5) {
            0 => vec![b("ZRANGEBYLEX"), b(key), x, y],
            1 => vec![b("ZREVRANGEBYLEX"), b(key), y, x],
            2 => vec![b("ZREMRANGEBYLEX"), b(key), x, y],
            3 => vec![b("ZRANGE"), b(key), x, y, b("BYLEX")],
            _ => vec![b("ZADD"), b(key), b("1"), self.zmember(), b("1"), self.zmember()],
        }
    }
}
