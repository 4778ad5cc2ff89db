//! Several servers and a placement driver: replication, recovery, failover.
use crate::{
    client::*,
    cmd,
    model::{self, Bytes, KS},
    plan::*,
    resp,
    resp::Resp,
    scenario::*,
    snap::{self, ALL_SLOTS},
    wire,
    world::*,
};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------ placement driver clients
pub struct PdConn {
    pub fd: i32,
    buf: Vec<u8>,
}
impl PdConn {
    pub fn open(limit: u64) -> Option<PdConn> {
        PdConn::open_from(0, limit)
    }
    pub fn open_from(node: u32, limit: u64) -> Option<PdConn> {
        let fd = net::new_sock(node);
        net::sock(fd).snd_timeout = limit;
        if net::connect_blocking(fd, (ip(PD), PD_PORT)).is_err() {
            net::close(fd);
            return None;
        }
        Some(PdConn { fd, buf: vec![] })
    }
    pub fn call(&mut self, c: &Cmd, limit: u64) -> Result<Resp, String> {
        self.send(&resp::encode(c))?;
        self.reply(limit)
    }
    pub fn send(&mut self, bytes: &[u8]) -> Result<(), String> {
        let mut pos = 0;
        while pos < bytes.len() {
            match net::try_write(self.fd, &bytes[pos..], Some(net::Waiter::Coro(current()))) {
                Ok(n) => pos += n,
                Err(net::EAGAIN) => park("placement driver request"),
                Err(e) => return Err(format!("write error {e}")),
            }
        }
        Ok(())
    }
    pub fn reply(&mut self, limit: u64) -> Result<Resp, String> {
        let dl = now() + limit;
        let mut b = [0u8; 4096];
        loop {
            match resp::parse(&self.buf) {
                Ok(Some((n, r))) => {
                    self.buf.drain(..n);
                    return Ok(r);
                }
                Ok(None) => {}
                Err(e) => return Err(format!("malformed: {e}")),
            }
            match net::try_read(self.fd, &mut b, false, Some(net::Waiter::Coro(current()))) {
                Ok(0) => return Err("end of stream".into()),
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(net::EAGAIN) => {
                    if now() >= dl {
                        return Err("no reply".into());
                    }
                    park_until("placement driver reply", dl);
                }
                Err(e) => return Err(format!("read error {e}")),
            }
        }
    }
    pub fn close(self, how: How) {
        match how {
            How::Rst => net::abort(self.fd),
            How::Leak => {}
            _ => net::close(self.fd),
        }
    }
}
pub fn init_cmd(group: usize, server: &str, forward: &str) -> Cmd {
    let i = wire::Init { group_id: group, server_addr: server.parse().unwrap(), forward_addr: forward.parse().unwrap() };
    vec![b("pd_sever_init"), b(bincode::serialize(&i).unwrap())]
}
pub fn beat_cmd(s: &wire::Status) -> Cmd {
    vec![b("pd_sever_heartbeat"), b(bincode::serialize(s).unwrap())]
}
pub fn start_pd(groups: usize) -> bool {
    boot_pd();
    for _ in 0..200 {
        if let Some(mut c) = PdConn::open(SEC) {
            for _ in 0..groups {
                let r = c.call(&cmd!["pd_crate_group"], 5 * SEC);
                if r.as_ref().map_or(true, |r| !r.is_ok()) {
                    viol(&["C13", "C15"], format!("creating a group: {r:?}"));
                    return false;
                }
            }
            c.close(How::Fin);
            return true;
        }
        sleep_ns(10 * MS);
    }
    viol(&["C13", "C15"], "the placement driver does not listen".to_string());
    false
}
/// Who leads group 1, as told to one more member that joins and stays silent afterwards.
pub fn observe() -> Option<wire::Status> {
    for _ in 0..3 {
        let mut c = PdConn::open(SEC)?;
        let r = c.call(&init_cmd(1, "10.0.0.250:1", "10.0.0.250:2"), 5 * SEC);
        c.close(How::Fin);
        if let Ok(Resp::Bulk(p)) = r {
            return bincode::deserialize(&p).ok();
        }
    }
    None
}
pub fn machine_of(a: std::net::SocketAddr) -> u32 {
    match a.ip() {
        std::net::IpAddr::V4(v) => u32::from(v.octets()[3]),
        _ => 0,
    }
}

// ------------------------------------------------------------ supervisor
/// Restarts servers whose process gives up by itself, as an init system would.
fn supervise(machines: Vec<u32>) {
    spawn_on(
        0,
        "supervisor",
        Box::new(move || loop {
            sleep_ns(250 * MS);
            let _k = Kernel::enter();
            for m in &machines {
                let Some(mm) = w().machines.get(m) else { continue };
                if mm.up && !node(mm.node).alive && mm.incarnation < 12 {
                    let code = node(mm.node).exit_code;
                    keep_health(*m);
                    let n = w().machines.get_mut(m).unwrap();
                    n.up = false;
                    n.deaths.push(sim().now);
                    simrt::trace!("supervisor: machine {} gave up with {:?}", m, code);
                    probe("processes_restarted_by_supervisor");
                    let m = *m;
                    call_at(sim().now + SEC, move || {
                        if !alive(m) {
                            boot_server(m);
                        }
                    });
                }
            }
        }),
    );
}
/// Record panics and dead tasks of an incarnation that ends.
pub fn keep_health(m: u32) {
    let Some(mm) = w().machines.get(&m) else { return };
    let n = node(mm.node);
    if !n.panics.is_empty() {
        viol(&["C15"], format!("machine {m}: panic: {}", n.panics.join(" | ")));
    }
    for d in &n.task_deaths {
        viol(&["C15"], format!("machine {m}: task died: {d}"));
    }
}

// ------------------------------------------------------------ the leader's history, slot by slot
struct Pos {
    /// what each key of the slot may be after this many writes
    st: BTreeMap<Bytes, Vec<KS>>,
    inv_ns: u64,
    /// the writer knows it is done
    ret_ns: u64,
}
/// Every slot is written by one client only, so the order of its writes is known.
fn slot_history(target: u32, slot: usize) -> Option<Vec<Pos>> {
    let mut v = vec![Pos { st: BTreeMap::new(), inv_ns: 0, ret_ns: 0 }];
    let mut writer: Option<usize> = None;
    for h in &w().hist {
        if h.target != target || h.never {
            continue;
        }
        let keys: Vec<Bytes> = match model::keys_of(&h.cmd) {
            None => v.last().unwrap().st.keys().cloned().collect(),
            Some(k) => k.into_iter().filter(|k| wire::slot_of(k) == slot).collect(),
        };
        if keys.is_empty() || !(model::is_write(&h.cmd) || cmd_name(&h.cmd) == "PTTL") || h.tag != 0 {
            continue;
        }
        if model::is_write(&h.cmd) {
            if writer.map_or(false, |x| x != h.client) {
                return None;
            }
            writer = Some(h.client);
        }
        if h.ret == PENDING {
            return None;
        }
        // each named key is its own write
        for k in &keys {
            let last = v.last().unwrap();
            let mut st = last.st.clone();
            let before = st.get(k).cloned().unwrap_or_else(|| vec![KS::none()]);
            let single = model::keys_of(&h.cmd).map_or(false, |k| k.len() == 1);
            let mut next = vec![];
            for s in &before {
                for n in model::step(s, &h.cmd, k, if single { h.reply.as_ref() } else { None }, crate::lin::window(h)) {
                    if !next.contains(&n) {
                        next.push(n);
                    }
                }
            }
            st.insert(k.clone(), next);
            if model::keys_of(&h.cmd).is_none() && k != &keys[0] {
                // FLUSHALL empties the slot at once
                v.last_mut().unwrap().st = st;
            } else {
                v.push(Pos { st, inv_ns: h.inv_ns, ret_ns: h.ret_ns });
            }
        }
    }
    Some(v)
}
/// Every client that only reads follower `f`: its reads of each slot walk forward through the history.
fn prefix_reads(leader: u32) {
    let mut hist: BTreeMap<usize, Option<Vec<Pos>>> = BTreeMap::new();
    let mut cur: BTreeMap<(usize, u32, usize, usize), usize> = BTreeMap::new();
    let mut bad = vec![];
    for h in &w().hist {
        if h.target == leader || h.ret == PENDING || h.tag != 0 {
            continue;
        }
        let Some(keys) = model::keys_of(&h.cmd) else { continue };
        if keys.len() != 1 || model::is_write(&h.cmd) {
            continue;
        }
        let m = &w().machines[&h.target];
        // which incarnation answered is known only if none began meanwhile
        let boots = m.boots.iter().filter(|b| **b <= h.inv_ns).count();
        if boots != m.boots.iter().filter(|b| **b <= h.ret_ns).count() {
            continue;
        }
        let k = &keys[0];
        let slot = wire::slot_of(k);
        let Some(hs) = hist.entry(slot).or_insert_with(|| slot_history(leader, slot)) else {
            probe("slot_histories_unknown");
            continue;
        };
        let at = cur.entry((h.client, h.target, boots, slot)).or_insert(0);
        let win = crate::lin::window(h);
        let none = vec![KS::none()];
        let ok = |i: usize| -> bool {
            let p = &hs[i];
            let s = p.st.get(k).unwrap_or(&none);
            p.inv_ns <= h.ret_ns && s.iter().any(|s| !model::step(s, &h.cmd, k, h.reply.as_ref(), win).is_empty())
        };
        match (*at..hs.len()).find(|i| ok(*i)) {
            Some(i) => {
                if i > *at {
                    probe("follower_reads_advanced");
                }
                *at = i;
                probe("follower_reads_explained");
            }
            None => {
                let older = (0..*at).rev().find(|i| ok(*i));
                let why = match older {
                    Some(i) => format!("it went back to the state after write {i} of its slot although write {} had shown before", *at),
                    None => "which it never was on the leader after any prefix of its slot's writes".to_string(),
                };
                bad.push(format!("follower {} answered {} with {:?} at {} us: {why}", h.target, cmd_str(&h.cmd), h.reply.as_ref().unwrap(), h.ret_ns / 1000));
                break;
            }
        }
    }
    for b in bad {
        viol(&["C11"], b);
    }
}

// ------------------------------------------------------------ comparing machines
type Content = BTreeMap<Bytes, (model::Val, u64)>;
/// Whole content of a machine through a snapshot; entries already expired are left out and counted.
pub fn content(m: u32) -> Result<(Content, usize), String> {
    let mut why = String::new();
    for _ in 0..3 {
        let mut r = Runner::extra(m, 8);
        let n = w().snaps.len();
        snap::fetch(&mut r, &[ALL_SLOTS, 65_536]);
        if w().snaps.len() == n {
            return Err("it does not accept connections".into());
        }
        let s = w().snaps.pop().unwrap();
        match wire::decode_snapshot(&s.bytes) {
            Ok((slots, _)) => {
                let mut c = Content::new();
                let mut late = 0;
                let wall = wall_ms_of(node_of(m));
                for (id, d) in slots {
                    for (k, v) in d.inner {
                        let Some(val) = wire::to_val(&v.data) else { return Err(format!("key {} holds inconsistent data", resp::show(&k))) };
                        if wire::slot_of(&k) != id && !k.starts_with(b"{}") {
                            return Err(format!("key {} is in slot {id}", resp::show(&k)));
                        }
                        if v.expires_at > 0 && v.expires_at <= wall {
                            if v.expires_at + 2_000 <= wall {
                                late += 1;
                            }
                            continue;
                        }
                        c.insert(k, (val.norm(), v.expires_at));
                    }
                }
                return Ok((c, late));
            }
            Err(wire::SnapErr::Incomplete) => why = format!("its snapshot ends early ({}, {} bytes)", s.end, s.bytes.len()),
            Err(wire::SnapErr::Bad(m)) => why = format!("its snapshot is damaged: {m}"),
        }
        if !s.tainted {
            break;
        }
    }
    Err(why)
}
fn show_entry(e: Option<&(model::Val, u64)>) -> String {
    match e {
        None => "absent".into(),
        Some((v, 0)) => resp::show(format!("{v:?}").as_bytes()),
        Some((v, e)) => format!("{} expiring {e}", resp::show(format!("{v:?}").as_bytes())),
    }
}
/// Followers must hold what the leader holds.
pub fn converged(leader: u32, followers: &[u32], props: &[&str]) -> bool {
    let a = match content(leader) {
        Ok(x) => x,
        Err(e) => {
            viol(&[props, &["C09"]].concat(), format!("leader {leader}: {e}"));
            return false;
        }
    };
    if a.1 > 0 {
        viol(&["C07"], format!("machine {leader} still holds {} keys that expired more than 2 s ago", a.1));
    }
    let mut good = true;
    for f in followers {
        let z = match content(*f) {
            Ok(x) => x,
            Err(e) => {
                viol(props, format!("follower {f}: {e}"));
                good = false;
                continue;
            }
        };
        if z.1 > 0 {
            viol(&["C07"], format!("machine {f} still holds {} keys that expired more than 2 s ago", z.1));
        }
        let wall = wall_ms_of(node_of(*f)).max(wall_ms_of(node_of(leader)));
        let gone = |e: Option<&(model::Val, u64)>| e.map_or(true, |e| e.1 > 0 && e.1 <= wall);
        let keys: BTreeSet<&Bytes> = a.0.keys().chain(z.0.keys()).collect();
        probe_n("replicated_keys_compared", keys.len() as u64);
        let diff: Vec<String> = keys
            .into_iter()
            .filter(|k| a.0.get(*k) != z.0.get(*k) && !(gone(a.0.get(*k)) && gone(z.0.get(*k))))
            .map(|k| format!("{} is {} on the leader but {} on the follower", resp::show(k), show_entry(a.0.get(k)), show_entry(z.0.get(k))))
            .collect();
        if !diff.is_empty() {
            good = false;
            viol(props, format!("follower {f} differs from leader {leader} in {} keys: {}", diff.len(), diff.iter().take(3).cloned().collect::<Vec<_>>().join("; ")));
        } else {
            probe("followers_converged");
        }
    }
    good
}
/// New writes in many slots reach every follower within `limit`.
fn fresh_writes(leader: u32, followers: &[u32], limit: u64, props: &[&str]) {
    let mut r = Runner::extra(leader, 21);
    let mut rng = rng::Rng::new(w().plan.seed ^ 0xf5e5);
    let mut keys: Vec<String> = (0..20).map(|_| format!("fresh{}", rng.below(1 << 40))).collect();
    // slots that were used before
    let used: BTreeSet<Bytes> = w().hist.iter().filter_map(|h| model::keys_of(&h.cmd)).flatten().collect();
    for u in used.into_iter().take(12) {
        if let Ok(u) = String::from_utf8(u) {
            let tag = u.find('{').and_then(|i| u[i..].find('}').map(|j| u[i + 1..i + j].to_string())).unwrap_or(u);
            if !tag.is_empty() && !tag.contains('}') {
                keys.push(format!("{{{tag}}}fresh"));
            }
        }
    }
    keys.sort();
    keys.dedup();
    for (i, k) in keys.iter().enumerate() {
        if r.ask(&cmd!["SET", k, i]).map_or(true, |x| !x.is_ok()) {
            viol(&[props, &["C15"]].concat(), format!("leader {leader} does not accept a write to {k}"));
            return;
        }
    }
    r.close(How::Fin, CEnd::Closed);
    sleep_ns(limit);
    for f in followers {
        let mut r = Runner::extra(*f, 22);
        let mut missing = vec![];
        for (i, k) in keys.iter().enumerate() {
            match r.ask(&cmd!["GET", k]) {
                Some(x) if x.text() == Some(i.to_string().into_bytes()) => {}
                x => missing.push(format!("{k} ({x:?})")),
            }
        }
        r.close(How::Fin, CEnd::Closed);
        if missing.is_empty() {
            probe("followers_resumed");
        } else {
            viol(props, format!("{} of {} writes made once everything was healthy again do not show on follower {f} after {} ms, e.g. {}", missing.len(), keys.len(), limit / MS, missing[0]));
        }
    }
}

/// What leader and followers hold, when all of them hold the same.
fn common_content(machines: &[u32]) -> Option<Content> {
    let Some(wire::Status { current_leader: Some(l), .. }) = observe() else { return None };
    let a = content(machine_of(l.server_addr)).ok()?.0;
    for m in machines {
        if alive(*m) && content(*m).ok()?.0 != a {
            return None;
        }
    }
    probe("content_before_failover");
    Some(a)
}
/// Nothing that every member had is gone, and nothing else is there.
fn kept(leader: u32, before: &Content) {
    let z = match content(leader) {
        Ok(x) => x.0,
        Err(e) => {
            viol(&["C14"], format!("new leader {leader}: {e}"));
            return;
        }
    };
    let wall = wall_ms_of(node_of(leader));
    let gone = |e: Option<&(model::Val, u64)>| e.map_or(true, |e| e.1 > 0 && e.1 <= wall);
    let keys: BTreeSet<&Bytes> = before.keys().chain(z.keys()).collect();
    probe_n("kept_keys_compared", keys.len() as u64);
    let bad: Vec<String> = keys
        .into_iter()
        .filter(|k| before.get(*k) != z.get(*k) && !(gone(before.get(*k)) && gone(z.get(*k))))
        .map(|k| format!("{} was {} on every member but is {}", resp::show(k), show_entry(before.get(k)), show_entry(z.get(k))))
        .collect();
    if !bad.is_empty() {
        viol(&["C14"], format!("taking over changed {} keys of machine {leader}: {}", bad.len(), bad.iter().take(3).cloned().collect::<Vec<_>>().join("; ")));
    }
}
/// Machine `dead` is out of order since 8 s or more: somebody else must lead and the others must follow.
fn took_over(machines: &[u32], dead: u32, before: Option<&Content>) -> bool {
    let leader = match observe() {
        Some(wire::Status { role: wire::Role::Follower, current_leader: Some(l), .. }) => machine_of(l.server_addr),
        x => {
            viol(&["C14"], format!("8 s after the leader failed the group has no leader: a new member is told {x:?}"));
            return false;
        }
    };
    if leader == dead || !machines.contains(&leader) || !alive(leader) {
        viol(&["C14"], format!("8 s after the leader failed, the leader is machine {leader}"));
        return false;
    }
    let others: Vec<u32> = machines.iter().copied().filter(|m| *m != leader && *m != dead && alive(*m)).collect();
    probe("takeovers_checked");
    let n = w().viols.len();
    if let Some(c) = before {
        kept(leader, c);
    }
    fresh_writes(leader, &others, SEC, &["C14", "C12"]);
    if w().viols.len() > n {
        return false;
    }
    if !others.is_empty() {
        probe("takeovers_with_followers");
    }
    true
}

// ------------------------------------------------------------ scenario
pub fn scenario(p: &Plan) {
    let n = p.get("servers").max(2) as u32;
    let mut stable = p.get("failover") == 0;
    let machines: Vec<u32> = (1..=n).collect();
    if !start_pd(1) {
        return;
    }
    for m in &machines {
        let mm = w().machines.entry(*m).or_default();
        mm.from_pd = true;
    }
    boot_server(1);
    wait_listening(1);
    supervise(machines.clone());
    start_faults();
    start_clients();
    let mut before = None;
    if p.get("keep_at_us") > 0 {
        until(p.get("keep_at_us") as u64 * US);
        before = common_content(&machines);
        if p.faults.iter().any(|f| f.at_us * US <= now() && f.at_us > p.get("keep_at_us") as u64) {
            before = None;
        }
    }
    if p.get("mid_at_us") > 0 {
        until(p.get("mid_at_us") as u64 * US);
        if !took_over(&machines, 1, before.as_ref()) {
            return;
        }
    }
    if p.get("again_us") > 0 {
        // one leader after the other
        wait_faults(now() + 600 * SEC);
        for _ in 0..p.get("agains").max(1) {
            sleep_ns(p.get("again_us") as u64 * US);
            let Some(wire::Status { current_leader: Some(l), .. }) = observe() else { break };
            let dead = machine_of(l.server_addr);
            let settled = |m: &u32| *m != dead && alive(*m) && w().machines[m].booted_ns + 6 * SEC < now();
            if !machines.contains(&dead) || !alive(dead) || !machines.iter().any(settled) {
                break;
            }
            let before = common_content(&machines);
            probe("repeated_failovers");
            crash(dead, p.seed % 2 == 0);
            sleep_ns(8 * SEC);
            if !took_over(&machines, dead, before.as_ref()) {
                return;
            }
            sleep_ns(p.get("away_us").max(1) as u64 * US);
            if !alive(dead) {
                boot_server(dead);
            }
        }
    }
    if !finish_clients(p) {
        viol(&[p.property.as_str()], "clients still waiting".to_string());
        return;
    }
    wait_faults(now() + 600 * SEC);
    for f in &p.faults {
        if let FaultKind::Stall { us, .. } = f.kind {
            until((f.at_us + us) * US);
        }
    }
    // from here on everything is healthy
    {
        let _k = Kernel::enter();
        net::heal_all();
        net::no_cuts();
        sim().net.slow.clear();
        sim().net.connect_errs.clear();
        sim().net.accept_errs.clear();
        for m in &machines {
            let id = node_of(*m);
            if id > 0 {
                node(id).fork_errs = (0, 0);
            }
            if !alive(*m) {
                let mm = w().machines.get_mut(m).unwrap();
                if mm.up {
                    // it gave up just now
                    mm.deaths.push(sim().now);
                    keep_health(*m);
                }
                boot_server(*m);
            }
        }
    }
    let healthy = now();
    sleep_ns(p.get("settle_ms").max(1_000) as u64 * MS);
    let mut leader = 1;
    {
        let tags = ["C14", "C12"];
        match observe() {
            // the driver itself is gone: nobody changes roles
            None if !alive(PD) => {}
            Some(wire::Status { role: wire::Role::Follower, current_leader: Some(l), .. }) => leader = machine_of(l.server_addr),
            x => {
                viol(&tags, format!("{} ms after the last fault the group has no live leader: a new member is told {x:?}", (now() - healthy) / MS));
                return;
            }
        }
        if !machines.contains(&leader) || !alive(leader) {
            viol(&tags, format!("{} ms after the last fault the leader is machine {leader}, which does not run", (now() - healthy) / MS));
            return;
        }
        if leader != 1 {
            probe("failovers");
            stable = false;
        }
    }
    for m in &machines {
        keep_health(*m);
    }
    let followers: Vec<u32> = machines.iter().copied().filter(|m| *m != leader).collect();
    let me = p.property.as_str();
    let mut tags: Vec<&str> = vec!["C10"];
    if p.get("faulty") > 0 {
        tags = vec!["C12"];
        if me == "C10" {
            tags.push("C10");
        }
    }
    if !stable {
        tags.push("C14");
    }
    for f in &followers {
        if !alive(*f) {
            viol(&tags, format!("follower {f} does not run {} ms after the last fault", (now() - healthy) / MS));
            return;
        }
    }
    converged(leader, &followers, &tags);
    fresh_writes(leader, &followers, p.get("fresh_ms").max(500) as u64 * MS, &tags);
    if w().viols.is_empty() {
        converged(leader, &followers, &tags);
    }
    if stable {
        prefix_reads(1);
    }
    idle_check(&machines, 5 * SEC, 400);
    for v in &mut w().viols {
        if v.msg.starts_with("idle servers") {
            v.props.push("C12".into());
        }
    }
    for m in &machines {
        let mm = &w().machines[m];
        if mm.up && !node(mm.node).alive {
            viol(&["C15"], format!("machine {m}: process exited with {:?}", node(mm.node).exit_code));
        }
    }
    copy_tags("machine", me);
    {
        // connections to running servers stay healthy; a follower may still be starting
        for c in &mut w().conns {
            if c.target != 1 && matches!(c.end, CEnd::Refused(_)) {
                c.tainted = true;
            }
            // the process gave up (the supervisor notices a little later)
            let until = if c.closed_ns > 0 { c.closed_ns } else { now() };
            if w().machines.get(&c.target).map_or(false, |m| m.deaths.iter().any(|d| *d >= c.opened_ns && *d <= until + 300 * MS)) {
                c.tainted = true;
            }
        }
    }
    conn_health(&["C03", "C15"]);
    if stable && !p.faults.iter().any(|f| matches!(f.kind, FaultKind::Crash { node: 1, .. } | FaultKind::Sigint { node: 1 })) {
        lin_check(1, &["C01"]);
    }
}
