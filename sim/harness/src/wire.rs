//! Mirrors of the serialised forms: DUMP payloads, snapshot streams, placement driver messages.
use crate::model::{Bytes, Sc, Val, F};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    io::Read,
    net::SocketAddr,
};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Node {
    pub score: f64,
    pub key: Bytes,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct SortedSet {
    pub hash: BTreeMap<Bytes, Node>,
    pub value: Vec<Node>,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Data {
    Null,
    String(Bytes),
    Bytes(Bytes),
    Integer(i64),
    Float(f64),
    Kvp(BTreeMap<Bytes, Data>),
    Deque(VecDeque<Data>),
    Set(BTreeSet<Bytes>),
    SortedSet(SortedSet),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Value {
    pub data: Data,
    pub expires_at: u64,
    pub visit_log: u64,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub struct Dict {
    pub write_id: u64,
    pub inner: BTreeMap<Bytes, Value>,
}
fn sc(d: &Data) -> Option<Sc> {
    match d {
        Data::String(b) | Data::Bytes(b) => Some(Sc::T(b.clone())),
        Data::Integer(i) => Some(Sc::I(*i)),
        _ => None,
    }
}
/// None: internally inconsistent or of no known type.
pub fn to_val(d: &Data) -> Option<Val> {
    Some(match d {
        Data::String(_) | Data::Bytes(_) | Data::Integer(_) => Val::Str(sc(d)?),
        Data::Kvp(h) => {
            let mut m = BTreeMap::new();
            for (k, v) in h {
                m.insert(k.clone(), sc(v)?);
            }
            Val::Hash(m)
        }
        Data::Deque(l) => {
            let mut m = VecDeque::new();
            for v in l {
                m.push_back(sc(v)?);
            }
            Val::List(m)
        }
        Data::Set(s) => Val::Set(s.iter().cloned().collect()),
        Data::SortedSet(z) => {
            // both halves must agree
            if z.hash.len() != z.value.len() {
                return None;
            }
            let mut m = BTreeMap::new();
            for n in &z.value {
                match z.hash.get(&n.key) {
                    Some(h) if h.key == n.key && h.score == n.score => {}
                    _ => return None,
                }
                m.insert(n.key.clone(), F::new(n.score));
            }
            Val::Z(m)
        }
        Data::Null | Data::Float(_) => return None,
    })
}
pub fn decode_value(p: &[u8]) -> Option<(Val, u64)> {
    let v: Value = bincode::deserialize(p).ok()?;
    Some((to_val(&v.data)?, v.expires_at))
}
pub fn decode_data(p: &[u8]) -> Option<Val> {
    let v: Data = bincode::deserialize(p).ok()?;
    to_val(&v)
}
pub fn from_val(v: &Val) -> Data {
    let s = |x: &Sc| match x {
        Sc::T(b) => Data::Bytes(b.clone()),
        Sc::I(i) => Data::Integer(*i),
    };
    match v {
        Val::Str(x) => s(x),
        Val::Hash(h) => Data::Kvp(h.iter().map(|(k, x)| (k.clone(), s(x))).collect()),
        Val::List(l) => Data::Deque(l.iter().map(s).collect()),
        Val::Set(x) => Data::Set(x.iter().cloned().collect()),
        Val::Z(z) => {
            let mut o: Vec<(F, Bytes)> = z.iter().map(|(k, f)| (*f, k.clone())).collect();
            o.sort();
            Data::SortedSet(SortedSet {
                hash: z.iter().map(|(k, f)| (k.clone(), Node { score: f.get(), key: k.clone() })).collect(),
                value: o.into_iter().map(|(f, k)| Node { score: f.get(), key: k }).collect(),
            })
        }
    }
}
/// A RESTORE payload holding `v`.
pub fn payload(v: &Val) -> Bytes {
    // containers iterate in a fixed order so that plans stay deterministic
    bincode::serialize(&Value { data: from_val(v), expires_at: 0, visit_log: 0 }).unwrap()
}

pub enum SnapErr {
    /// more bytes are needed
    Incomplete,
    Bad(String),
}
/// Decode a whole snapshot stream: (slot, dict)* terminator.
pub fn decode_snapshot(buf: &[u8]) -> Result<(Vec<(usize, Dict)>, usize), SnapErr> {
    let mut cur = std::io::Cursor::new(buf);
    let mut v = Vec::new();
    loop {
        let mut tag = [0u8; 1];
        if cur.read(&mut tag).unwrap_or(0) == 0 {
            return Err(SnapErr::Incomplete);
        }
        match tag[0] {
            0 => return Ok((v, cur.position() as usize)),
            1 => {}
            t => return Err(SnapErr::Bad(format!("tag {t} at {}", cur.position() - 1))),
        }
        let mut id = [0u8; 2];
        if cur.read_exact(&mut id).is_err() {
            return Err(SnapErr::Incomplete);
        }
        let d: Dict = match bincode::deserialize_from(&mut cur) {
            Ok(d) => d,
            Err(e) => {
                return Err(match *e {
                    bincode::ErrorKind::Io(_) => SnapErr::Incomplete,
                    e => SnapErr::Bad(format!("{e} at {}", cur.position())),
                })
            }
        };
        v.push((u16::from_le_bytes(id) as usize, d));
    }
}

// ------------------------------------------------------------ placement driver
#[derive(Debug, Clone, Copy, Deserialize, Serialize, PartialEq, Eq)]
pub enum Role {
    Leader,
    Follower,
}
#[derive(Debug, Clone, Copy, Deserialize, Serialize, PartialEq, Eq)]
pub struct Leader {
    pub server_id: usize,
    pub server_addr: SocketAddr,
    pub forward_addr: SocketAddr,
}
#[derive(Debug, Clone, Copy, Deserialize, Serialize, PartialEq, Eq)]
pub struct Status {
    pub server_id: usize,
    pub group_id: usize,
    pub role: Role,
    pub current_leader: Option<Leader>,
}
#[derive(Debug, Clone, Copy, Deserialize, Serialize, PartialEq, Eq)]
pub struct Init {
    pub group_id: usize,
    pub server_addr: SocketAddr,
    pub forward_addr: SocketAddr,
}

pub fn crc16(b: &[u8]) -> u16 {
    let mut c: u16 = 0;
    for &x in b {
        c ^= u16::from(x) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 };
        }
    }
    c
}
/// Hash tags of the first and last slots, and of slots beside powers of two.
pub const EDGES: [&str; 15] = [
    "la2", "hia", "hia", "emj", "sd7", "ae9", "esh", "qfs", "th7", "nbd", "nrh", "dlj", "b75", "lp0", "7ho",
];
pub fn slot_of(key: &[u8]) -> usize {
    let mut k = key;
    if let Some(i) = key.iter().position(|x| *x == b'{') {
        if let Some(j) = key[i + 1..].iter().position(|x| *x == b'}') {
            if j > 0 {
                k = &key[i + 1..i + 1 + j];
            }
        }
    }
    (crc16(k) & 16383) as usize
}
