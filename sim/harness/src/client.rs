//! Clients: coroutines of the harness that follow their plan and record what they see.
use crate::{plan::*, resp, resp::Resp, world::*};
use simrt::*;
use std::collections::VecDeque;

pub struct Io {
    pub fd: i32,
    /// index into World::conns
    pub rec: usize,
    pub inbuf: Vec<u8>,
    pub eof_sent: bool,
}
pub struct Runner {
    pub id: usize,
    pub target: u32,
    pub io: Option<Io>,
    pub dump: Option<Vec<u8>>,
    pub tag: u32,
    pub op_timeout: u64,
    pub connect_tries: u32,
}

pub struct PipeOpt {
    pub cuts: Vec<u32>,
    pub gap: u64,
    pub read_after: u64,
    pub read_chunk: usize,
    pub read_gap: u64,
    pub end: Option<(How, u64)>,
    /// keep back this many bytes at the end until everything before the last command is answered
    pub hold: usize,
}
impl PipeOpt {
    pub fn plain() -> Self {
        PipeOpt { cuts: vec![], gap: 0, read_after: 0, read_chunk: 1 << 16, read_gap: 0, end: None, hold: 0 }
    }
}

impl Runner {
    pub fn new(id: usize, target: u32) -> Self {
        let p = &w().plan;
        let t = p.get("op_timeout_ms");
        Runner {
            id,
            target,
            io: None,
            dump: None,
            tag: 0,
            op_timeout: if t > 0 { t as u64 * MS } else { 30 * SEC },
            connect_tries: p.get("connect_tries").max(1) as u32,
        }
    }
    /// A client of the harness itself (final checks); not tied to a plan entry.
    pub fn extra(target: u32, tag: u32) -> Self {
        w().cur_conn.push(None);
        let mut r = Runner::new(w().cur_conn.len() - 1, target);
        r.tag = tag;
        r
    }
    pub fn open(&mut self) -> bool {
        if self.io.is_some() {
            return true;
        }
        let mut wait = 20 * MS;
        for t in 0..self.connect_tries {
            let fd = net::new_sock(0);
            let opened = now();
            let rec = w().conns.len();
            w().conns.push(ConnRec { client: self.id, target: self.target, fd, opened_ns: opened, closed_ns: 0, end: CEnd::Open, tainted: !alive(self.target), raw: false, net: None });
            w().cur_conn[self.id] = Some(rec);
            net::sock(fd).snd_timeout = self.op_timeout;
            match net::connect_blocking(fd, (ip(self.target), PORT)) {
                Ok(()) => {
                    w().conns[rec].net = net::conn_of(fd).map(|x| x.0);
                    self.io = Some(Io { fd, rec, inbuf: Vec::new(), eof_sent: false });
                    return true;
                }
                Err(e) => {
                    net::close(fd);
                    w().conns[rec].end = CEnd::Refused(e);
                    w().conns[rec].closed_ns = now();
                    w().cur_conn[self.id] = None;
                    if t + 1 < self.connect_tries {
                        sleep_ns(wait);
                        wait = (wait * 2).min(SEC);
                    }
                }
            }
        }
        false
    }
    pub fn close(&mut self, how: How, end: CEnd) {
        if let Some(io) = self.io.take() {
            if how == How::Fin && end == CEnd::Closed && !w().conns[io.rec].tainted {
                let mut buf = [0u8; 256];
                if let Ok(n @ 1..) = net::try_read(io.fd, &mut buf, false, None) {
                    viol(&["C03"], format!("bytes nobody asked for follow the last reply: {}", resp::show(&buf[..n])));
                }
            }
            match how {
                How::Rst => {
                    w().conns[io.rec].tainted = true;
                    net::abort(io.fd);
                }
                How::Leak => {
                    w().conns[io.rec].tainted = true;
                }
                _ => {
                    net::close(io.fd);
                }
            }
            w().conns[io.rec].end = end;
            w().conns[io.rec].closed_ns = now();
            w().cur_conn[self.id] = None;
        }
    }
    /// Run `cmds` over the connection; returns the history indices.
    pub fn exchange(&mut self, cmds: &[Cmd], o: &PipeOpt) -> Vec<usize> {
        let mut ids = Vec::new();
        let opened = self.open();
        let rec = match &self.io {
            Some(io) => io.rec,
            None => w().conns.iter().rposition(|c| c.client == self.id).unwrap_or(0),
        };
        for c in cmds {
            let mut c = c.clone();
            for a in &mut c {
                if *a == b("@dump") {
                    *a = Arg::B(self.dump.clone().unwrap_or_else(|| crate::wire::payload(&crate::model::Val::Str(crate::model::Sc::T(b"dflt".to_vec())))));
                }
            }
            ids.push(w().hist.len());
            w().hist.push(OpRec {
                client: self.id,
                conn: rec,
                target: self.target,
                cmd: c,
                inv: event(),
                inv_ns: now(),
                ret: PENDING,
                ret_ns: now(),
                reply: None,
                fail: if opened { String::new() } else { "connect".into() },
                sent: false,
                never: !opened,
                tag: self.tag,
            });
        }
        if !opened {
            return ids;
        }
        let mut bytes = Vec::new();
        let mut starts = Vec::new();
        let mut ends = Vec::new();
        for i in &ids {
            starts.push(bytes.len());
            bytes.extend_from_slice(&resp::encode(&w().hist[*i].cmd));
            ends.push(bytes.len());
        }
        let io = self.io.as_mut().unwrap();
        let fd = io.fd;
        let t0 = now();
        let mut progress = t0;
        let mut pos = 0;
        let mut done_sending = 0;
        let mut cut_i = 0;
        let mut piece_end = if o.cuts.is_empty() { bytes.len() } else { (o.cuts[0].max(1) as usize).min(bytes.len()) };
        let mut next_write = t0;
        let mut next_read = t0 + o.read_after;
        let mut pend: VecDeque<usize> = ids.iter().copied().collect();
        let mut buf = vec![0u8; o.read_chunk.max(1)];
        let mut end: Option<CEnd> = None;
        let mut write_failed = false;
        let mut end_at = u64::MAX;
        let mut halved = false;
        loop {
            let mut moved = false;
            if let Some((how, after)) = o.end {
                if pos >= bytes.len() && end_at == u64::MAX {
                    end_at = now() + after;
                    w().conns[io.rec].tainted = true;
                }
                if now() >= end_at && !halved {
                    if how == How::Half {
                        halved = true;
                        let _ = net::shutdown(fd, 1);
                    } else {
                        end = Some(CEnd::Closed);
                    }
                }
                if end.is_some() {
                    break;
                }
            }
            // replies already buffered
            while let Some(&i) = pend.front() {
                if io.inbuf.is_empty() {
                    break;
                }
                match resp::parse(&io.inbuf) {
                    Ok(None) => break,
                    Ok(Some((n, r))) => {
                        io.inbuf.drain(..n);
                        pend.pop_front();
                        let h = &mut w().hist[i];
                        h.ret = event();
                        h.ret_ns = now();
                        if cmd_name(&h.cmd) == "DUMP" {
                            if let Resp::Bulk(p) = &r {
                                // `RESTORE` reads a data value, DUMP wrote the whole entry: the front part fits
                                self.dump = Some(p.clone());
                            }
                        }
                        simrt::trace!("client {} {} -> {:?}", self.id, cmd_str(&h.cmd), r);
                        h.reply = Some(r);
                        progress = now();
                        moved = true;
                    }
                    Err(e) => {
                        end = Some(CEnd::Malformed(e));
                        break;
                    }
                }
            }
            if end.is_some() {
                break;
            }
            if pend.is_empty() && pos >= bytes.len() && o.end.is_none() {
                break;
            }
            let cap = if pend.len() > 1 { bytes.len() - o.hold.min(bytes.len() - 1 - starts[starts.len() - 1]) } else { bytes.len() };
            if pos < cap && !write_failed && now() >= next_write {
                // invocations: commands none of whose bytes left so far
                for k in 0..starts.len() {
                    if starts[k] >= pos && starts[k] < piece_end {
                        let h = &mut w().hist[ids[k]];
                        h.inv = event();
                        h.inv_ns = now();
                    }
                }
                let lim = piece_end.min(cap);
                match net::try_write(fd, &bytes[pos..lim], Some(net::Waiter::Coro(current()))) {
                    Ok(n) => {
                        pos += n;
                        moved = true;
                        progress = now();
                        while done_sending < ends.len() && ends[done_sending] <= pos {
                            w().hist[ids[done_sending]].sent = true;
                            done_sending += 1;
                        }
                        if pos >= piece_end && pos < bytes.len() {
                            cut_i += 1;
                            let c = if o.cuts.is_empty() { bytes.len() } else { o.cuts[cut_i % o.cuts.len()].max(1) as usize };
                            piece_end = (pos + c).min(bytes.len());
                            next_write = now() + o.gap;
                        }
                    }
                    Err(net::EAGAIN) => {}
                    Err(e) => {
                        // the server went away; replies may still be readable
                        write_failed = true;
                        simrt::trace!("client {} write error {}", self.id, e);
                        moved = true;
                    }
                }
            }
            if now() >= next_read {
                match net::try_read(fd, &mut buf, false, Some(net::Waiter::Coro(current()))) {
                    Ok(0) => {
                        end = Some(CEnd::Eof);
                        break;
                    }
                    Ok(n) => {
                        io.inbuf.extend_from_slice(&buf[..n]);
                        moved = true;
                        progress = now();
                        if o.read_gap > 0 {
                            next_read = now() + o.read_gap;
                        }
                    }
                    Err(net::EAGAIN) => {}
                    Err(e) => {
                        end = Some(CEnd::Reset(e));
                        break;
                    }
                }
            }
            if moved {
                continue;
            }
            let dl = progress + self.op_timeout;
            if now() >= dl && now() >= next_read + self.op_timeout.min(SEC) {
                end = Some(CEnd::Timeout);
                break;
            }
            let mut until = dl.max(now() + 1);
            if pos < bytes.len() && next_write > now() {
                until = until.min(next_write);
            }
            if next_read > now() {
                until = until.min(next_read);
            }
            if end_at > now() {
                until = until.min(end_at);
            }
            park_until("client", until);
        }
        if end.is_none() && pend.is_empty() && !io.inbuf.is_empty() {
            viol(&["C03"], format!("bytes nobody asked for follow the last reply: {}", resp::show(&io.inbuf)));
            end = Some(CEnd::Malformed("surplus bytes".into()));
        }
        // commands whose first byte never left cannot have any effect
        for (k, i) in ids.iter().enumerate() {
            if starts[k] >= pos && w().hist[*i].ret == PENDING {
                w().hist[*i].never = true;
            }
        }
        if let Some(e) = end {
            let f = match &e {
                CEnd::Eof => "eof".to_string(),
                CEnd::Reset(n) => format!("reset {n}"),
                CEnd::Malformed(m) => format!("malformed {m}"),
                CEnd::Timeout => "timeout".to_string(),
                CEnd::Closed => "closed by the client".to_string(),
                _ => String::new(),
            };
            for i in &pend {
                w().hist[*i].fail = f.clone();
            }
            simrt::trace!("client {} connection ends: {:?}", self.id, e);
            let how = match (&e, o.end) {
                (CEnd::Timeout, _) => How::Rst,
                (CEnd::Closed, Some((h, _))) => h,
                _ => How::Fin,
            };
            let r = self.io.as_ref().unwrap().rec;
            let t = w().conns[r].tainted;
            self.close(how, e);
            w().conns[r].tainted = t;
        }
        ids
    }
    pub fn call(&mut self, c: &Cmd) -> usize {
        self.exchange(std::slice::from_ref(c), &PipeOpt::plain())[0]
    }
    /// Reply of a command, None if there was none.
    pub fn ask(&mut self, c: &Cmd) -> Option<Resp> {
        let i = self.call(c);
        w().hist[i].reply.clone()
    }
    /// Send bytes as they are; read whatever comes for `wait`. Returns the bytes read and whether the
    /// connection is still open.
    pub fn raw(&mut self, bytes: &[u8], wait: u64) -> (Vec<u8>, bool) {
        if !self.open() {
            return (vec![], false);
        }
        let io = self.io.as_mut().unwrap();
        w().conns[io.rec].tainted = true;
        w().conns[io.rec].raw = true;
        let fd = io.fd;
        let mut got = std::mem::take(&mut io.inbuf);
        let mut pos = 0;
        let dl = now() + wait;
        let mut buf = vec![0u8; 65536];
        let mut open = true;
        let mut wfail = false;
        loop {
            let mut moved = false;
            if pos < bytes.len() && !wfail {
                match net::try_write(fd, &bytes[pos..], Some(net::Waiter::Coro(current()))) {
                    Ok(n) => {
                        pos += n;
                        moved = true;
                    }
                    Err(net::EAGAIN) => {}
                    Err(_) => wfail = true,
                }
            }
            if wait > 0 {
                match net::try_read(fd, &mut buf, false, Some(net::Waiter::Coro(current()))) {
                    Ok(0) | Err(net::ECONNRESET) => {
                        open = false;
                        break;
                    }
                    Ok(n) => {
                        got.extend_from_slice(&buf[..n]);
                        moved = true;
                    }
                    Err(_) => {}
                }
            }
            if moved {
                continue;
            }
            if now() >= dl {
                break;
            }
            park_until("raw client", dl);
        }
        if !open {
            self.close(How::Fin, CEnd::Eof);
        }
        (got, open)
    }
    /// Read until the server closes or `limit` ns passed; true if it closed.
    pub fn wait_closed(&mut self, limit: u64) -> bool {
        let (_, open) = self.raw(b"", limit);
        !open
    }
    pub fn step(&mut self, s: &Step) {
        match s {
            Step::Do(c) => {
                self.call(c);
            }
            Step::Pipe { cmds, cuts, gap_us, read_after_us, read_chunk, read_gap_us } => {
                let o = PipeOpt {
                    cuts: cuts.clone(),
                    gap: gap_us * US,
                    read_after: read_after_us * US,
                    read_chunk: (*read_chunk).max(1) as usize,
                    read_gap: read_gap_us * US,
                    end: None,
                    hold: 0,
                };
                self.exchange(cmds, &o);
            }
            Step::Burst { cmds, cuts, gap_us, end, after_us } => {
                let o = PipeOpt { cuts: cuts.clone(), gap: gap_us * US, end: Some((*end, after_us * US)), ..PipeOpt::plain() };
                self.exchange(cmds, &o);
            }
            Step::Hold { cmds, cuts, gap_us, hold } => {
                let o = PipeOpt { cuts: cuts.clone(), gap: gap_us * US, hold: *hold as usize, ..PipeOpt::plain() };
                self.exchange(cmds, &o);
            }
            Step::Raw { bytes, wait_us } => {
                self.raw(&bytes.0, wait_us * US);
            }
            Step::Sleep(us) => sleep_ns(us * US),
            Step::Until(us) => until(us * US),
            Step::Close(h) => match h {
                How::Half => {
                    if let Some(io) = &self.io {
                        let fd = io.fd;
                        w().conns[io.rec].tainted = true;
                        let _ = net::shutdown(fd, 1);
                        self.wait_closed(10 * SEC);
                        self.close(How::Fin, CEnd::Closed);
                    }
                }
                h => self.close(*h, CEnd::Closed),
            },
            Step::Open => {
                self.open();
            }
            Step::Target(t) => {
                self.close(How::Fin, CEnd::Closed);
                self.target = *t;
            }
            Step::Barrier(n) => barrier(*n),
            Step::Special(name, a) => crate::scenario::special(self, name, a),
        }
    }
}
fn barrier(n: u32) {
    let want = w().plan.clients.iter().filter(|c| c.steps.iter().any(|s| *s == Step::Barrier(n))).count() as u32;
    let e = w().barrier.entry(n).or_default();
    e.0 += 1;
    if e.0 >= want {
        for c in std::mem::take(&mut e.1) {
            unpark(c);
        }
        return;
    }
    e.1.push(current());
    loop {
        if w().barrier[&n].0 >= want {
            return;
        }
        park("barrier");
    }
}
pub fn start_clients() {
    let cs = w().plan.clients.clone();
    w().clients_left = cs.len();
    for (i, c) in cs.into_iter().enumerate() {
        spawn_on(
            0,
            &format!("client{i}"),
            Box::new(move || {
                until(c.start_us * US);
                let mut r = Runner::new(i, c.target);
                let stop = w().plan.get("stop_us") as u64 * US;
                for s in &c.steps {
                    if stop > 0 && now() >= stop {
                        break;
                    }
                    r.step(s);
                }
                r.close(How::Fin, CEnd::Closed);
                w().clients_left -= 1;
                if let Some(c) = w().ctl {
                    unpark(c);
                }
            }),
        );
    }
}
/// Controller: wait for all clients (and faults). False if `limit` ns of simulated time passed first.
pub fn wait_clients(limit: u64) -> bool {
    while w().clients_left > 0 {
        if now() >= limit {
            return false;
        }
        park_until("ctl", limit);
    }
    true
}
pub fn wait_faults(limit: u64) -> bool {
    while w().faults_left > 0 {
        if now() >= limit {
            return false;
        }
        park_until("ctl", limit);
    }
    true
}
