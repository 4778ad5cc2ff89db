//! The placement driver alone, with scripted members: who is told to lead, and when.
use crate::{
    cluster::{beat_cmd, init_cmd, start_pd, PdConn},
    client::*,
    plan::*,
    resp,
    resp::Resp,
    scenario::*,
    wire,
    wire::Role,
    world::*,
};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};

pub const M0: u32 = 200;
const TIMEOUT: u64 = 3_000 * MS;

/// One request of a member. The driver processed it at some instant in [inv, late].
struct Ob {
    member: usize,
    group: usize,
    /// 0 = not known (the reply to the join was lost)
    id: usize,
    inv: u64,
    late: u64,
    answered: bool,
    join: bool,
    /// the sequence number of the join, which chose the addresses
    seq: usize,
    role: Role,
    leader: Option<wire::Leader>,
}
#[derive(Default)]
struct Log {
    obs: Vec<Ob>,
    /// addresses of join number i
    addrs: Vec<(usize, std::net::SocketAddr, std::net::SocketAddr)>,
}
static mut LOG: Option<Log> = None;
#[allow(static_mut_refs)]
fn log() -> &'static mut Log {
    unsafe { LOG.get_or_insert_with(Log::default) }
}

struct Member {
    i: usize,
    node: u32,
    conn: Option<PdConn>,
    me: Option<(usize, wire::Status)>,
    limit: u64,
}
impl Member {
    fn connect(&mut self) -> bool {
        for _ in 0..40 {
            if self.conn.is_some() {
                return true;
            }
            self.conn = PdConn::open_from(self.node, SEC);
            if self.conn.is_none() {
                sleep_ns(SEC);
            }
        }
        false
    }
    fn drop_conn(&mut self, how: How) {
        if let Some(c) = self.conn.take() {
            c.close(how);
        }
    }
    fn send(&mut self, bytes: &[u8], split: u64, gap: u64) -> bool {
        let n = (split as usize).min(bytes.len());
        let c = self.conn.as_mut().unwrap();
        if n > 0 && c.send(&bytes[..n]).is_err() {
            return false;
        }
        if n > 0 && n < bytes.len() {
            sleep_ns(gap * US);
        }
        n >= bytes.len() || self.conn.as_mut().unwrap().send(&bytes[n..]).is_ok()
    }
    fn no_reply(&self, what: &str, e: &str) {
        let t = w().plan.get("disturbed") == 0;
        if t {
            viol(&["C13", "C14", "C15"], format!("member {} got no reply to its {what}: {e}", self.i));
        }
    }
    fn join(&mut self, group: usize, lose: i64, split: u64, gap: u64) {
        if !self.connect() {
            return;
        }
        let seq = log().addrs.len();
        let (a, f) = (format!("10.1.{}.{}:{}", seq / 200, seq % 200 + 1, 6000 + seq), format!("10.1.{}.{}:{}", seq / 200, seq % 200 + 1, 7000 + seq));
        log().addrs.push((group, a.parse().unwrap(), f.parse().unwrap()));
        let bytes = resp::encode(&init_cmd(group, &a, &f));
        let inv = now();
        let n = log().obs.len();
        log().obs.push(Ob { member: self.i, group, id: 0, inv, late: PENDING, answered: false, join: true, seq, role: Role::Follower, leader: None });
        let sent = self.send(&bytes, split, gap);
        if !sent || lose > 0 {
            if lose > 0 {
                sleep_ns(lose as u64 * US);
            }
            self.drop_conn(if lose % 2 == 0 { How::Fin } else { How::Rst });
            probe("member_requests_abandoned");
            log().obs[n].late = if w().plan.get("disturbed") > 0 { PENDING } else { now() + 2 * SEC };
            self.me = None;
            return;
        }
        match self.conn.as_mut().unwrap().reply(self.limit) {
            Ok(Resp::Bulk(b)) => match bincode::deserialize::<wire::Status>(&b) {
                Ok(s) => {
                    let o = &mut log().obs[n];
                    o.late = now();
                    o.answered = true;
                    o.id = s.server_id;
                    o.role = s.role;
                    o.leader = s.current_leader;
                    simrt::trace!("member {} joins group {} as {} {:?} leader {:?}", self.i, group, s.server_id, s.role, s.current_leader.map(|l| l.server_id));
                    if s.group_id != group {
                        viol(&["C13"], format!("a member joining group {group} is told it is in group {}", s.group_id));
                    }
                    probe("members_joined");
                    self.me = Some((seq, s));
                }
                Err(e) => viol(&["C13"], format!("the reply to a join is not readable: {e}")),
            },
            Ok(Resp::Error(_)) if group > w().plan.get("groups") as usize => {

                log().obs[n].group = 0;
                probe("joins_of_missing_groups_refused");
            }
            Ok(x) => viol(&["C13"], format!("a join of group {group} is answered with {x:?}")),
            Err(e) => {
                self.no_reply("join", &e);
                self.drop_conn(How::Fin);
                self.me = None;
            }
        }
    }
    /// `lie`: report another role and leader than known
    fn beat(&mut self, lose: i64, lie: i64, split: u64, gap: u64, pipe: u64) {
        let Some((seq, st)) = self.me else { return };
        if !self.connect() {
            return;
        }
        let mut sent = st;
        match lie {
            1 => sent.role = if st.role == Role::Leader { Role::Follower } else { Role::Leader },
            2 => sent.current_leader = None,
            3 => {
                if let Some(l) = &mut sent.current_leader {
                    l.server_id += 1;
                }
            }
            4 => {
                if let Some(l) = &mut sent.current_leader {
                    l.forward_addr = l.server_addr;
                }
            }
            _ => {}
        }
        let one = resp::encode(&beat_cmd(&sent));
        let k = pipe.max(1) as usize;
        let bytes: Vec<u8> = std::iter::repeat(one).take(k).flatten().collect();
        let inv = now();
        let n = log().obs.len();
        for _ in 0..k {
            log().obs.push(Ob { member: self.i, group: st.group_id, id: st.server_id, inv, late: PENDING, answered: false, join: false, seq, role: Role::Follower, leader: None });
        }
        let ok = self.send(&bytes, split, gap);
        if !ok || lose > 0 {
            if lose > 0 {
                sleep_ns(lose as u64 * US);
            }
            self.drop_conn(if lose % 2 == 0 { How::Fin } else { How::Rst });
            probe("member_requests_abandoned");
            for o in &mut log().obs[n..] {
                if o.inv == inv && o.member == self.i && w().plan.get("disturbed") == 0 {
                    o.late = now() + 2 * SEC;
                }
            }
            return;
        }
        for j in 0..k {
            match self.conn.as_mut().unwrap().reply(self.limit) {
                Ok(Resp::Bulk(b)) => match bincode::deserialize::<Option<wire::Status>>(&b) {
                    Ok(s) => {
                        let told = s.is_some();
                        let s = s.unwrap_or(sent);
                        let at = log().obs.iter().enumerate().filter(|(_, o)| o.member == self.i && o.inv == inv && !o.join).map(|(x, _)| x).nth(j).unwrap();
                        let o = &mut log().obs[at];
                        o.late = now();
                        o.answered = true;
                        o.role = s.role;
                        o.leader = s.current_leader;
                        probe(if told { "members_told_a_change" } else { "heartbeats_without_change" });
                        if told {
                            simrt::trace!("member {} ({} of group {}) is told {:?} leader {:?}", self.i, s.server_id, s.group_id, s.role, s.current_leader.map(|l| l.server_id));
                        }
                        if (s.server_id, s.group_id) != (st.server_id, st.group_id) {
                            viol(&["C13"], format!("member {} of group {} is told that it is {} of group {}", st.server_id, st.group_id, s.server_id, s.group_id));
                        }
                        if told && s == sent {
                            probe("needless_status_replies");
                        }
                        self.me = Some((seq, wire::Status { server_id: st.server_id, group_id: st.group_id, ..s }));
                    }
                    Err(e) => viol(&["C13"], format!("the reply to a heartbeat is not readable: {e}")),
                },
                Ok(x) => viol(&["C13"], format!("a heartbeat is answered with {x:?}")),
                Err(e) => {
                    self.no_reply("heartbeat", &e);
                    self.drop_conn(How::Fin);
                    return;
                }
            }
        }
    }
    /// a heartbeat of a member that never joined
    fn ghost(&mut self, group: usize, id: usize) {
        if !self.connect() {
            return;
        }
        let s = wire::Status { server_id: id, group_id: group, role: Role::Leader, current_leader: None };
        match self.conn.as_mut().unwrap().call(&beat_cmd(&s), self.limit) {
            Ok(Resp::Bulk(b)) => match bincode::deserialize::<Option<wire::Status>>(&b) {
                Ok(None) => probe("unknown_members_ignored"),
                x => viol(&["C13"], format!("member {id} of group {group} never joined, its heartbeat is answered with {x:?}")),
            },
            Ok(x) => viol(&["C13"], format!("a heartbeat is answered with {x:?}")),
            Err(e) => {
                self.no_reply("heartbeat", &e);
                self.drop_conn(How::Fin);
            }
        }
    }
    fn step(&mut self, s: &Step) {
        match s {
            Step::Sleep(us) => sleep_ns(us * US),
            Step::Until(us) => until(us * US),
            Step::Close(h) => self.drop_conn(*h),
            Step::Raw { bytes, wait_us } => {
                if self.connect() {
                    let _ = self.conn.as_mut().unwrap().send(&bytes.0);
                    sleep_ns(wait_us * US);
                    self.drop_conn(if bytes.0.len() % 3 == 0 { How::Rst } else { How::Fin });
                }
            }
            Step::Special(k, a) => {
                let g = |i: usize| a.get(i).copied().unwrap_or(0);
                match k.as_str() {
                    "join" => self.join(g(0) as usize, g(1), g(2) as u64, g(3) as u64),
                    // n, period us, lie, split, gap us, pipelined
                    "beats" => {
                        for _ in 0..g(0) {
                            let t = now();
                            self.beat(0, g(2), g(3) as u64, g(4) as u64, g(5) as u64);
                            until(t + g(1) as u64 * US);
                        }
                    }
                    "lose" => self.beat(g(0).max(1), 0, g(1) as u64, 0, 1),
                    "ghost" => self.ghost(g(0) as usize, g(1) as usize),
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

pub fn scenario(p: &Plan) {
    let groups = p.get("groups").max(1) as usize;
    unsafe { LOG = None };
    if !start_pd(groups) {
        return;
    }
    start_faults();
    w().clients_left = p.clients.len();
    for (i, c) in p.clients.iter().cloned().enumerate() {
        let m = M0 + i as u32;
        let node = {
            let _k = Kernel::enter();
            net::power_on(ip(m));
            add_node(&format!("m{i}"), ip(m), 1)
        };
        w().machines.entry(m).or_default().node = node;
        spawn_on(
            node,
            &format!("member{i}"),
            Box::new(move || {
                until(now() + c.start_us * US);
                let mut m = Member { i, node, conn: None, me: None, limit: 30 * SEC };
                for s in &c.steps {
                    m.step(s);
                }
                m.drop_conn(How::Fin);
                w().clients_left -= 1;
                if let Some(c) = w().ctl {
                    unpark(c);
                }
            }),
        );
    }
    if !finish_clients(p) {
        return;
    }
    let id = node_of(PD);
    if !alive(PD) || !node(id).panics.is_empty() || !node(id).task_deaths.is_empty() {
        viol(&["C13", "C14", "C15"], format!("the placement driver: alive {}, panics {:?}, dead tasks {:?}", alive(PD), node(id).panics, node(id).task_deaths));
    }
    {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        for o in &log().obs {
            (o.member, o.group, o.id, o.answered, o.join, o.role == Role::Leader, o.leader.map(|l| l.server_id)).hash(&mut h);
        }
        w().more = (log().obs.len() as u64, log().obs.iter().filter(|o| o.answered).count() as u64, h.finish());
    }
    for g in 1..=groups {
        check_group(p, g);
    }
    idle_check(&[PD], 5 * SEC, 50);
}
const fn ms(t: u64) -> u64 {
    t / MS
}
fn check_group(p: &Plan, g: usize) {
    let l = log();
    let obs: Vec<&Ob> = l.obs.iter().filter(|o| o.group == g).collect();
    if obs.is_empty() {
        return;
    }
    let stalls: u64 = p.faults.iter().map(|f| if let FaultKind::Stall { us, .. } = f.kind { us * US } else { 0 }).sum();
    let slack = 300 * MS + stalls;
    let seq_of: BTreeMap<usize, usize> = obs.iter().filter(|o| o.join && o.answered).map(|o| (o.id, o.seq)).collect();
    // identities
    {
        let joins: Vec<&&Ob> = obs.iter().filter(|o| o.join && o.answered).collect();
        let ids: BTreeSet<usize> = joins.iter().map(|o| o.id).collect();
        if ids.len() != joins.len() {
            viol(&["C13"], format!("two members of group {g} were given the same identity"));
        }
    }
    let who = |o: &Ob| format!("member {} of group {g} at {}..{} ms", o.id, ms(o.inv), ms(o.late));
    for o in obs.iter().filter(|o| o.answered) {
        let Some(x) = &o.leader else {
            viol(&["C13"], format!("{}: no leader although it is a member", who(o)));
            continue;
        };
        let seq = match seq_of.get(&x.server_id) {
            Some(s) => *s,
            // joined without learning its identity
            None => match obs.iter().find(|q| q.join && !q.answered && l.addrs[q.seq].1 == x.server_addr) {
                Some(q) => q.seq,
                None => {
                    viol(&["C13"], format!("{}: told leader {x:?}, which never joined", who(o)));
                    continue;
                }
            },
        };
        if l.addrs[seq] != (g, x.server_addr, x.forward_addr) {
            viol(&["C13"], format!("{}: told leader {x:?}, whose addresses are {:?}", who(o), l.addrs[seq]));
        }
        if o.role == Role::Leader && x.server_id != o.id {
            viol(&["C13"], format!("{}: told it is leader and that the leader is {}", who(o), x.server_id));
        }
    }
    if !w().viols.is_empty() {
        return;
    }
    // when each member was live for sure: merged intervals
    let mut live: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
    for o in obs.iter().filter(|o| o.answered && o.late <= o.inv + TIMEOUT) {
        live.entry(o.id).or_default().push((o.late, o.inv + TIMEOUT));
    }
    fn merge(v: &mut Vec<(u64, u64)>) {
        v.sort_unstable();
        let mut out: Vec<(u64, u64)> = vec![];
        for x in v.drain(..) {
            match out.last_mut() {
                Some(y) if x.0 <= y.1 => y.1 = y.1.max(x.1),
                _ => out.push(x),
            }
        }
        *v = out;
    }
    for v in live.values_mut() {
        merge(v);
    }
    // a member can be elected once it has sent a heartbeat
    let mut elig: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
    for o in obs.iter().filter(|o| !o.join && o.answered && o.late <= o.inv + TIMEOUT) {
        elig.entry(o.id).or_default().push((o.late, o.inv + TIMEOUT));
    }
    for v in elig.values_mut() {
        merge(v);
    }
    let end_of = |id: usize, at: u64| live.get(&id).and_then(|v| v.iter().find(|x| x.0 <= at && at <= x.1)).map(|x| x.1);
    let covered = |id: usize, a: u64, b: u64| end_of(id, a).map_or(false, |e| e >= b);
    let first_leader = obs.iter().filter(|o| o.answered).min_by_key(|o| o.late).and_then(|o| o.leader).map(|l| l.server_id);

    // reigns
    let mut ans: Vec<&Ob> = obs.iter().copied().filter(|o| o.answered).collect();
    ans.sort_by_key(|o| o.inv);
    for o in &ans {
        let x = o.leader.unwrap().server_id;
        let end = if o.role == Role::Leader {
            let own = o.inv + TIMEOUT;
            if own < o.late {
                continue;
            }
            end_of(x, o.late).unwrap_or(own).max(own)
        } else {
            let a = o.inv.saturating_sub(1_300 * MS + slack);
            if !covered(x, a, o.late) {
                continue;
            }
            end_of(x, a).unwrap()
        };
        probe("reigns_checked");
        for q in ans.iter().filter(|q| q.inv >= o.late && q.late <= end) {
            let y = q.leader.unwrap().server_id;
            let role = if q.id == x { Role::Leader } else { Role::Follower };
            if y == x && q.role == role {
                continue;
            }
            let tags: &[&str] = if Some(x) == first_leader && y != x { &["C13"] } else { &["C13", "C14"] };
            let m = format!(
                "group {g}: at {}..{} ms {} was told that {x} leads (as {:?}), {x} was live until {} ms, but at {}..{} ms {} was told {:?} with leader {y}",
                ms(o.inv), ms(o.late), o.id, o.role, ms(end), ms(q.inv), ms(q.late), q.id, q.role
            );
            viol(tags, m);
            return;
        }
    }
    // a dead leader is not reported any more once a check has run while somebody else was live
    for q in &ans {
        let x = q.leader.unwrap().server_id;
        if !seq_of.contains_key(&x) {
            continue;
        }
        let span = 1_005 * MS + slack;
        let Some(a) = q.inv.checked_sub(span) else { continue };
        let dead = !obs.iter().any(|o| (o.id == x || o.id == 0) && o.inv <= q.late && o.late.saturating_add(TIMEOUT + 2 * MS) >= a);
        if !dead {
            continue;
        }
        let mut others: Vec<(u64, u64)> = elig.iter().filter(|(id, _)| **id != x).flat_map(|(_, v)| v.iter().copied()).collect();
        merge(&mut others);
        if others.iter().any(|v| v.0 <= a && v.1 >= q.inv) {
            let last = obs.iter().filter(|o| o.id == x).map(|o| o.late).max().unwrap_or(0);
            viol(
                &["C14"],
                format!("group {g}: at {}..{} ms {} is still told that {x} leads; {x} was last heard of at {} ms and another member was live all the time since {} ms", ms(q.inv), ms(q.late), q.id, ms(last), ms(a)),
            );
            return;
        }
        probe("dead_leaders_without_successor");
    }
    // who takes over
    let mut changes: Vec<(&Ob, &Ob)> = vec![];
    for q in &ans {
        if let Some(o) = ans.iter().filter(|o| o.late <= q.inv).max_by_key(|o| o.inv) {
            if o.leader.unwrap().server_id != q.leader.unwrap().server_id {
                changes.push((o, q));
            }
        }
    }
    for (o, q) in changes {
        let (x, y) = (o.leader.unwrap().server_id, q.leader.unwrap().server_id);
        // the change happened between these two requests
        let (mut a, b) = (o.inv, q.late);
        // ... and not while x was live
        if o.role == Role::Leader {
            a = a.max(end_of(x, o.late).unwrap_or(0).max(o.inv + TIMEOUT).min(b));
        }
        probe("leader_changes_seen");
        let from = a.saturating_sub(1_300 * MS + slack);
        for (z, v) in elig.iter().filter(|(z, _)| **z < y && **z != x) {
            if v.iter().any(|v| v.0 <= from && v.1 >= b) {
                viol(
                    &["C14"],
                    format!("group {g}: {y} became leader after {x} (between {} and {} ms) although {z} has been a member for longer and was live from {} to {} ms", ms(a), ms(b), ms(from), ms(b)),
                );
                return;
            }
        }
        // somebody who cannot have been live was elected
        if seq_of.contains_key(&y) && !obs.iter().any(|h| (h.id == y || h.id == 0) && h.inv <= b && h.late.saturating_add(TIMEOUT + 2 * MS) >= a) {
            viol(&["C14"], format!("group {g}: {y} became leader between {} and {} ms without having been heard of for 3 s", ms(a), ms(b)));
            return;
        }
        if seq_of.contains_key(&y) && !obs.iter().any(|h| h.id == y && h.inv <= b && (!h.join || h.role == Role::Leader)) {
            viol(&["C14"], format!("group {g}: {y} became leader between {} and {} ms although it never sent a heartbeat", ms(a), ms(b)));
            return;
        }
        probe("elections_checked");
    }
}
