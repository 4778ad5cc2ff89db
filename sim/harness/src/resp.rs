//! RESP values: an independent encoder / decoder for the client side.
use crate::plan::Arg;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Resp {
    Simple(Vec<u8>),
    Error(Vec<u8>),
    Int(i64),
    Bulk(Vec<u8>),
    Nil,
    Array(Vec<Resp>),
}
pub fn show(b: &[u8]) -> String {
    let cut = b.len() > 48;
    let mut s = String::new();
    for &c in b.iter().take(if cut { 24 } else { 60 }) {
        if (32..127).contains(&c) && c != b'\\' {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{c:02x}"));
        }
    }
    if cut {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
impl std::fmt::Debug for Resp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Resp::Simple(b) => write!(f, "+{}", show(b)),
            Resp::Error(b) => write!(f, "-{}", show(b)),
            Resp::Int(i) => write!(f, ":{i}"),
            Resp::Bulk(b) => write!(f, "${}", show(b)),
            Resp::Nil => write!(f, "nil"),
            Resp::Array(v) => {
                if v.len() > 24 {
                    write!(f, "[{} items]", v.len())
                } else {
                    f.debug_list().entries(v).finish()
                }
            }
        }
    }
}
impl Resp {
    pub fn is_err(&self) -> bool {
        matches!(self, Resp::Error(_))
    }
    /// Text content of a simple or bulk string or of an integer.
    pub fn text(&self) -> Option<Vec<u8>> {
        match self {
            Resp::Simple(b) | Resp::Bulk(b) => Some(b.clone()),
            Resp::Int(i) => Some(i.to_string().into_bytes()),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Resp::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Resp::Simple(b) if b == b"OK")
    }
}

fn line(b: &[u8], from: usize) -> Result<Option<(usize, &[u8])>, String> {
    let mut i = from;
    while i + 1 < b.len() {
        if b[i] == b'\r' {
            if b[i + 1] == b'\n' {
                return Ok(Some((i + 2, &b[from..i])));
            }
            return Err(format!("stray CR in reply line at {i}"));
        }
        if b[i] == b'\n' {
            return Err(format!("stray LF in reply line at {i}"));
        }
        i += 1;
    }
    if b.len() - from > 1 << 20 {
        return Err("endless reply line".into());
    }
    Ok(None)
}
fn num(b: &[u8]) -> Result<i64, String> {
    let s = std::str::from_utf8(b).map_err(|_| "bad number in reply".to_string())?;
    s.parse::<i64>().map_err(|_| format!("bad number {:?} in reply", show(b)))
}
/// One reply from the front of `b`: Ok(None) if incomplete.
pub fn parse(b: &[u8]) -> Result<Option<(usize, Resp)>, String> {
    parse_at(b, 0, 0)
}
fn parse_at(b: &[u8], p: usize, depth: u32) -> Result<Option<(usize, Resp)>, String> {
    if p >= b.len() {
        return Ok(None);
    }
    if depth > 8 {
        return Err("reply nested too deeply".into());
    }
    let kind = b[p];
    if !b"+-:$*".contains(&kind) {
        return Err(format!("reply starts with byte {:?}: {}", kind as char, show(&b[p..])));
    }
    let (q, l) = match line(b, p + 1)? {
        Some(x) => x,
        None => return Ok(None),
    };
    match kind {
        b'+' => Ok(Some((q, Resp::Simple(l.to_vec())))),
        b'-' => Ok(Some((q, Resp::Error(l.to_vec())))),
        b':' => Ok(Some((q, Resp::Int(num(l)?)))),
        b'$' => {
            let n = num(l)?;
            if n < 0 {
                return Ok(Some((q, Resp::Nil)));
            }
            let n = n as usize;
            if b.len() < q + n + 2 {
                return Ok(None);
            }
            if &b[q + n..q + n + 2] != b"\r\n" {
                return Err("bulk reply not terminated".into());
            }
            Ok(Some((q + n + 2, Resp::Bulk(b[q..q + n].to_vec()))))
        }
        _ => {
            let n = num(l)?;
            if n < 0 {
                return Ok(Some((q, Resp::Nil)));
            }
            let mut v = Vec::new();
            let mut q = q;
            for _ in 0..n {
                match parse_at(b, q, depth + 1)? {
                    Some((e, r)) => {
                        q = e;
                        v.push(r);
                    }
                    None => return Ok(None),
                }
            }
            Ok(Some((q, Resp::Array(v))))
        }
    }
}
pub fn encode(args: &[Arg]) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(format!("*{}\r\n", args.len()).as_bytes());
    for a in args {
        match a {
            Arg::B(b) => {
                o.extend_from_slice(format!("${}\r\n", b.len()).as_bytes());
                o.extend_from_slice(b);
                o.extend_from_slice(b"\r\n");
            }
            Arg::S(b) => {
                o.push(b'+');
                o.extend_from_slice(b);
                o.extend_from_slice(b"\r\n");
            }
            Arg::I(i) => o.extend_from_slice(format!(":{i}\r\n").as_bytes()),
        }
    }
    o
}
