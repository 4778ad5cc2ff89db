//! Requests of broken or hostile clients. They only name keys starting with `h`, which no other client uses,
//! or are requests on the keys of others that must have no effect: cut short, or to be refused.
use crate::{plan::*, resp};
use simrt::rng::Rng;

const NAMES: [&str; 59] = [
    "GET", "SET", "SETEX", "PSETEX", "DEL", "EXISTS", "INCR", "DECR", "INCRBY", "DECRBY", "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT", "TTL", "PTTL", "HGET", "HSET", "HMGET", "HSETNX", "HEXISTS",
    "HGETALL", "HDEL", "HINCRBY", "LPUSH", "RPUSH", "LPUSHX", "RPUSHX", "LPOP", "RPOP", "LRANGE", "LLEN", "SADD", "SREM", "SMEMBERS", "SISMEMBER", "ZADD", "ZREM", "ZRANGE", "ZRANK", "ZREMRANGEBYRANK",
    "ZREMRANGEBYSCORE", "ZREMRANGEBYLEX", "DUMP", "RESTORE", "OBJECT", "DEBUG", "PING", "INFO", "SMISMEMBER", "ZREVRANGE", "SYNCSNAPSHOT",
    "ZRANGEBYLEX", "ZRANGEBYSCORE", "ZREVRANGEBYLEX", "ZREVRANGEBYSCORE", "ZREVRANK", "CONFIG", "COMMAND",
];
const WORDS: [&[u8]; 36] = [
    b"", b"0", b"-1", b"1", b"9223372036854775807", b"-9223372036854775808", b"9223372036854775808", b"18446744073709551615", b"99999999999999999999999999", b"nan", b"inf", b"-inf", b"1e308", b"-1e400", b"(", b"[", b"(1", b"[a",
    b"+", b"-", b"\xff\xfe", b"\xf0\x9f\x98", b"NX", b"XX", b"GET", b"EX", b"PX", b"EXAT", b"KEEPTTL", b"LIMIT", b"BYSCORE", b"BYLEX", b"REV", b"WITHSCORES", b"INCR", b"REPLACE",
];
fn key(r: &mut Rng) -> Vec<u8> {
    format!("h{}", r.below(4)).into_bytes()
}
fn word(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => key(r),
        1 => r.next().to_string().into_bytes(),
        2 => (r.next() as i64).to_string().into_bytes(),
        3 => filler(1 + r.below(30) as usize, r.next() as u8),
        4 => b"a".to_vec(),
        _ => r.pick(&WORDS).to_vec(),
    }
}
/// A command with a plausible name and arbitrary arguments.
pub fn command(r: &mut Rng) -> Vec<Vec<u8>> {
    let name = *r.pick(&NAMES);
    let mut v = vec![name.as_bytes().to_vec()];
    if name == "SYNCSNAPSHOT" {
        if r.chance(1, 2) {
            v.push(r.pick(&[&b"16385"[..], b"-1", b"99999999999", b"x", b"65536"]).to_vec());
        }
        return v;
    }
    if matches!(name, "OBJECT" | "DEBUG") {
        v.push(if r.chance(1, 2) { r.pick(&[&b"IDLETIME"[..], b"FREQ", b"ENCODING", b"OBJECT"]).to_vec() } else { word(r) });
    }
    if r.chance(9, 10) && name != "PING" && name != "INFO" {
        v.push(key(r));
        let n = match r.below(10) {
            0 => 30,
            n => n / 2,
        };
        for _ in 0..n {
            // DEL and EXISTS name keys all the way
            v.push(if matches!(name, "DEL" | "EXISTS") { key(r) } else { word(r) });
        }
    }
    v
}
fn encode(c: &[Vec<u8>]) -> Vec<u8> {
    resp::encode(&c.iter().map(|x| Arg::B(x.clone())).collect::<Vec<_>>())
}
/// The beginning of a request of the victims, never the whole of it.
pub fn truncated(r: &mut Rng, whole: &[u8]) -> Vec<u8> {
    let n = whole.len();
    let cut = match r.below(4) {
        0 => 2,
        1 => 1,
        2 => r.range(1, n.min(12) as u64) as usize,
        _ => r.range(1, n as u64) as usize,
    };
    whole[..n - cut].to_vec()
}
/// A request on a victim's key that the server has to refuse, and that must leave the key as it is.
pub fn refused(r: &mut Rng, key: &[u8]) -> Vec<u8> {
    let k = &String::from_utf8_lossy(key).into_owned();
    let e = |c: &[&str]| encode(&c.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>());
    match r.below(30) {
        0 => e(&["SET", k, "v", "FOO"]),
        1 => e(&["SET", k]),
        2 => e(&["SET", k, "v", "EX", "abc"]),
        3 => e(&["SET", k, "v", "EX"]),
        4 => e(&["SETT", k, "v"]),
        5 => e(&["INCRBY", k, "abc"]),
        6 => e(&["INCRBY", k, "99999999999999999999"]),
        7 => e(&["INCRBY", k]),
        8 => e(&["HSET", k, "f"]),
        9 => e(&["HSET", k, "f", "v", "g"]),
        10 => e(&["ZADD", k, "abc", "m"]),
        11 => e(&["ZADD", k, "1", "m", "2"]),
        12 => e(&["ZADD", k, "1", "m", "nan?", "n"]),
        13 => e(&["LPUSH", k]),
        14 => e(&["SADD", k]),
        15 => e(&["EXPIRE", k, "abc"]),
        16 => e(&["EXPIRE", k, "10", "QQ"]),
        17 => e(&["PEXPIREAT", k]),
        18 => e(&["HINCRBY", k, "f", "1.5"]),
        19 => e(&["ZREMRANGEBYRANK", k, "a", "b"]),
        20 => e(&["RESTORE", k, "0", "garbage", "REPLACE"]),
        // an argument that is no string
        21 => [&b"*2\r\n$3\r\nDEL\r\n*1\r\n"[..], &e(&[k])[4..]].concat(),
        23 => [format!("*3\r\n$3\r\nSET\r\n${}\r\n{k}\r\n", k.len()).as_bytes(), b"$x\r\n\r\n"].concat(),
        24 => [format!("*3\r\n$3\r\nSET\r\n${}\r\n{k}\r\n", k.len()).as_bytes(), b":x1\r\n"].concat(),
        25 => [format!("*3\r\n$3\r\nSET\r\n${}\r\n{k}\r\n", k.len()).as_bytes(), b":12a\r\n"].concat(),
        26 => [format!("*2\r\n$3\r\nDEL\r\n${}z\r\n{k}\r\n", k.len()).as_bytes()].concat(),
        27 => e(&["DECRBY", k, "12abc"]),
        28 => e(&["SETEX", k, "1x", "v"]),
        22 => [format!("*3\r\n$3\r\nDEL\r\n${}\r\n{k}\r\n", k.len()).as_bytes(), b"*1\r\n$1\r\nx\r\n"].concat(),
        _ => [format!("*3\r\n$3\r\nSET\r\n${}\r\n{k}\r\n", k.len()).as_bytes(), b"$-5\r\n"].concat(),
    }
}
/// A command whose arguments are frames of any kind.
fn frames(r: &mut Rng) -> Vec<u8> {
    let c = command(r);
    let mut o = format!("*{}\r\n", c.len()).into_bytes();
    for x in c {
        match r.below(12) {
            0 => o.extend_from_slice(b"$-1\r\n"),
            1 => o.extend_from_slice(format!(":{}\r\n", r.next() as i64).as_bytes()),
            2 => o.extend_from_slice(b"*0\r\n"),
            3 => o.extend_from_slice(b"*1\r\n$1\r\nx\r\n"),
            4 => o.extend_from_slice(b"-ERR no\r\n"),
            5 => o.extend_from_slice(b"+OK\r\n"),
            6 => o.extend_from_slice(b"*-1\r\n"),
            _ => {
                o.extend_from_slice(format!("${}\r\n", x.len()).as_bytes());
                o.extend_from_slice(&x);
                o.extend_from_slice(b"\r\n");
            }
        }
    }
    o
}
fn huge(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(9) {
        0 => i64::MAX.to_string(),
        1 => i64::MIN.to_string(),
        2 => u64::MAX.to_string(),
        3 => "4294967296".into(),
        4 => "2147483647".into(),
        5 => "1000000000".into(),
        6 => "-2".into(),
        7 => "99999999999999999999999".into(),
        _ => (r.next() as i64).to_string(),
    };
    let mut o = match r.below(5) {
        0 => format!("*{n}\r\n"),
        1 => format!("*2\r\n$3\r\nGET\r\n${n}\r\n"),
        2 => format!("${n}\r\n"),
        3 => format!("*3\r\n$3\r\nSET\r\n$2\r\nh0\r\n${n}\r\nabc\r\n"),
        _ => format!("*1\r\n*{n}\r\n"),
    }
    .into_bytes();
    for _ in 0..r.below(20) {
        o.extend_from_slice(b"$1\r\nx\r\n");
    }
    o
}
/// The serialized form of a value no command builds, or of an ordinary one.
fn value(r: &mut Rng) -> Vec<u8> {
    use crate::model::{Sc, Val, F};
    let some = |r: &mut Rng| filler(r.below(12) as usize, r.next() as u8);
    let n = r.below(6);
    match r.below(8) {
        0 => crate::wire::payload(&Val::Str(Sc::I(r.next() as i64))),
        1 => crate::wire::payload(&Val::Hash((0..n).map(|_| (some(r), Sc::I(7))).collect())),
        2 => crate::wire::payload(&Val::List((0..n).map(|_| Sc::T(some(r))).collect())),
        3 => crate::wire::payload(&Val::Set((0..n).map(|_| some(r)).collect())),
        4 => {
            let mut p = crate::wire::payload(&Val::Z((0..=n).map(|i| (some(r), F::new(1.5 + i as f64))).collect()));
            // scores that are no numbers
            if r.chance(1, 2) {
                let one = 1.5f64.to_bits().to_le_bytes();
                let bad = r.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, 7.0]).to_bits().to_le_bytes();
                let both = r.chance(2, 3);
                let mut i = 0;
                while i + 8 <= p.len() {
                    if p[i..i + 8] == one {
                        p[i..i + 8].copy_from_slice(&bad);
                        if !both {
                            break;
                        }
                    }
                    i += 1;
                }
            }
            p
        }
        5 | 6 => {
            // containers in containers
            let depth = *r.pick(&[1, 2, 15, 16, 17, 100, 3_000, 30_000]);
            let mut p = vec![];
            for _ in 0..depth {
                if r.chance(1, 3) {
                    p.extend_from_slice(&5u32.to_le_bytes());
                    p.extend_from_slice(&1u64.to_le_bytes());
                    p.extend_from_slice(&1u64.to_le_bytes());
                    p.push(b'f');
                } else {
                    p.extend_from_slice(&6u32.to_le_bytes());
                    p.extend_from_slice(&1u64.to_le_bytes());
                }
            }
            p.extend_from_slice(&3u32.to_le_bytes());
            p.extend_from_slice(&5u64.to_le_bytes());
            p.extend_from_slice(&[0; 16]);
            p
        }
        _ => crate::wire::payload(&Val::Str(Sc::T(filler(r.below(40) as usize, 5)))),
    }
}
/// Bytes of one misbehaviour.
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(13) {
        0 => (0..r.log_range(1, 3_000)).map(|_| r.next() as u8).collect(),
        1 | 2 => {
            let mut c = encode(&command(r));
            c.truncate(r.usize(c.len()));
            c
        }
        3 | 4 => {
            // flip some bytes, but never in the key
            let mut c = encode(&command(r));
            for _ in 0..r.range(1, 4) {
                let i = r.usize(c.len());
                if i > 12 || i < 4 {
                    c[i] = r.next() as u8;
                }
            }
            c
        }
        5 => huge(r),
        6 => {
            let n = *r.pick(&[3, 30, 300, 30_000]);
            let mut v = b"*1\r\n".repeat(n);
            if r.chance(1, 2) {
                v.extend_from_slice(b"$4\r\nPING\r\n");
            }
            v
        }
        7 => frames(r),
        8 => {
            let mut v = vec![];
            for _ in 0..r.range(1, 30) {
                v.extend(encode(&command(r)));
            }
            v
        }
        9 => {
            let lines: [&[u8]; 12] = [b"\r\n", b"\n\n\n", b"PING\r\n", b"GET h0\r\n", b"*\r\n", b"$\r\n", b":\r\n", b"*0\r\n", b"*1\r\n", b"+PING\r\n", b"*-1\r\n", b"*1\r\n$0\r\n\r\n"];
            let mut v = vec![];
            for _ in 0..r.range(1, 4) {
                v.extend_from_slice(*r.pick(&lines));
            }
            v
        }
        10 => {
            // unknown commands
            let names: [&[u8]; 5] = [b"NOSUCH", b"", b"\xff\xff", b"GETGETGETGETGETGETGETGETGETGETGETGETGETGETGETGET", b"FLUSHALLX"];
            let mut c = vec![r.pick(&names).to_vec()];
            for _ in 0..r.below(5) {
                c.push(word(r));
            }
            encode(&c)
        }
        11 => {
            // corrupt payloads
            let mut p = value(r);
            match r.below(5) {
                4 => {}
                0 => p.truncate(r.usize(p.len() + 1)),
                1 => p = filler(r.log_range(1, 400) as usize, r.next() as u8),
                _ => {
                    for _ in 0..r.range(1, 6) {
                        let i = r.usize(p.len());
                        p[i] = r.next() as u8;
                    }
                }
            }
            let k = key(r);
            let mut v = encode(&[b"RESTORE".to_vec(), k.clone(), r.pick(&[&b"0"[..], b"0", b"100", b"-5", b"9223372036854775807"]).to_vec(), p, b"REPLACE".to_vec()]);
            // what is there now is used
            for _ in 0..r.below(6) {
                let mut c = command(r);
                if c.len() > 1 {
                    c[1] = k.clone();
                }
                v.extend(encode(&c));
            }
            v
        }
        _ => encode(&command(r)),
    }
}
/// Many requests with long replies, to a client that does not read them.
pub fn flood(r: &mut Rng) -> Vec<u8> {
    let mut v = encode(&[b"SET".to_vec(), b"h9".to_vec(), filler(r.log_range(1_000, 60_000) as usize, 3)]);
    for _ in 0..r.range(5, 60) {
        v.extend(encode(&[b"GET".to_vec(), b"h9".to_vec()]));
    }
    v
}

/// Bytes for the placement driver that join nobody and beat for nobody.
pub fn pd_bytes(r: &mut Rng, groups: u64) -> Vec<u8> {
    use crate::wire::*;
    let st = Status { server_id: r.range(1_000_000, 2_000_000) as usize, group_id: 1 + r.below(groups + 1) as usize, role: Role::Leader, current_leader: None };
    let init = Init { group_id: (groups + 1 + r.below(1_000)) as usize, server_addr: "10.9.9.9:1".parse().unwrap(), forward_addr: "[::1]:2".parse().unwrap() };
    let mut pay = match r.below(3) {
        0 => bincode::serialize(&st).unwrap(),
        1 => bincode::serialize(&init).unwrap(),
        _ => filler(r.below(80) as usize, r.next() as u8),
    };
    match r.below(4) {
        0 => pay.truncate(r.usize(pay.len() + 1)),
        1 => {
            // behind the group id and the server id
            if pay.len() > 17 {
                let j = 16 + r.usize(pay.len() - 16);
                pay[j] = r.next() as u8;
            }
        }
        2 => pay.extend(filler(r.below(40) as usize, 7)),
        _ => {}
    }
    let name: &[u8] = r.pick(&[&b"pd_sever_init"[..], b"PD_SEVER_HEARTBEAT", b"pd_sever_heartbeat", b"pd_latest_server_status", b"", b"\xff\xfe", b"GET"]);
    match r.below(8) {
        0 => filler(r.below(200) as usize, 3),
        1 => encode(&[name.to_vec()]),
        2 => vec![b'*', b'1', b'\r', b'\n'].repeat(r.range(1, 3_000) as usize),
        3 => b"*2\r\n+pd_sever_init\r\n:5\r\n".to_vec(),
        4 => {
            let mut x = encode(&[name.to_vec(), pay]);
            x.truncate(r.usize(x.len() + 1));
            x
        }
        5 => b"*0\r\n".to_vec(),
        _ => encode(&[name.to_vec(), pay]),
    }
}
