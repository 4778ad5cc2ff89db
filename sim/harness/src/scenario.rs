//! Scenario bodies (run inside the simulation by the controller) and their oracles.
use crate::{client::*, cmd, lin, plan::*, resp::Resp, world::*};
use simrt::*;
use std::collections::BTreeMap;

pub fn special(r: &mut Runner, name: &str, a: &[i64]) {
    match name {
        "snap" => crate::snap::fetch(r, a),
        _ => panic!("unknown special step {name}"),
    }
}
/// Entry point of the controller coroutine.
pub fn run_plan() {
    w().ctl = Some(current());
    let p = w().plan.clone();
    match p.scenario.as_str() {
        "kv" => kv(&p),
        "reclaim" => reclaim(&p),
        "limit" => limit(&p),
        "snap" => crate::snap::scenario(&p),
        "shutdown" => crate::life::shutdown(&p),
        "accept" => crate::life::accept(&p),
        "startup" => crate::life::startup(&p),
        "members" => crate::members::scenario(&p),
        "cluster" => crate::cluster::scenario(&p),
        s => panic!("unknown scenario {s}"),
    }
    sim().stop = true;
}

pub fn wait_listening(machine: u32) {
    // a server is up when somebody can connect
    for _ in 0..200 {
        let fd = net::new_sock(0);
        net::sock(fd).snd_timeout = SEC;
        let r = net::connect_blocking(fd, (ip(machine), PORT));
        net::close(fd);
        if r.is_ok() {
            return;
        }
        sleep_ns(10 * MS);
    }
}
/// Checks that hold for every scenario with healthy servers.
pub fn health(machines: &[u32]) {
    for m in machines {
        let Some(mm) = w().machines.get(m) else { continue };
        let n = node(mm.node);
        if !n.panics.is_empty() {
            viol(&["C15"], format!("machine {m}: panic: {}", n.panics.join(" | ")));
        }
        for d in &n.task_deaths {
            viol(&["C15"], format!("machine {m}: task died: {d}"));
        }
        if mm.up && !n.alive {
            viol(&["C15"], format!("machine {m}: process exited with {:?}", n.exit_code));
        }
    }
}
/// Connections nobody disturbed must not end, stall or receive garbage.
pub fn conn_health(props: &[&str]) {
    let mut v = vec![];
    for (i, c) in w().conns.iter().enumerate() {
        if c.tainted {
            continue;
        }
        let what = match &c.end {
            CEnd::Open | CEnd::Closed => continue,
            CEnd::Eof => "closed by the server".to_string(),
            CEnd::Reset(e) => format!("reset by the server ({e})"),
            CEnd::Malformed(m) => format!("malformed reply: {m}"),
            CEnd::Timeout => "no reply in time".to_string(),
            CEnd::Refused(e) => format!("connect failed ({e})"),
        };
        let h = w().hist.iter().filter(|h| h.conn == i && h.ret == PENDING).map(|h| cmd_str(&h.cmd)).next().unwrap_or_default();
        v.push(format!("undisturbed connection {i} of client {}: {what}; first unanswered: {h}", c.client));
    }
    for m in v {
        viol(props, m);
    }
}
pub fn lin_check(target: u32, props: &[&str]) {
    match lin::check(target, 0, &BTreeMap::new(), if w().plan.get("prefix") > 0 { "log" } else { "" }) {
        (lin::Verdict::Ok, n) => {
            probe_n("linearized_ops", n as u64);
        }
        (lin::Verdict::Inconclusive, _) => probe("lin_inconclusive"),
        (lin::Verdict::Bad(m), _) => viol(props, m),
    }
}
fn limit_ns(p: &Plan) -> u64 {
    let l = p.get("limit_s");
    (if l > 0 { l as u64 } else { 600 }) * SEC
}
pub fn finish_clients(p: &Plan) -> bool {
    if !wait_clients(limit_ns(p)) {
        viol(&["C15"], format!("clients still waiting after {} s: {}", limit_ns(p) / SEC, blocked_report(None)));
        return false;
    }
    wait_faults(limit_ns(p));
    true
}

/// Final reads of every key named in the history.
pub fn final_reads(target: u32, tag: u32) {
    let mut keys: Vec<Vec<u8>> = w().hist.iter().filter_map(|h| crate::model::keys_of(&h.cmd)).flatten().collect();
    keys.sort();
    keys.dedup();
    let mut r = Runner::extra(target, tag);
    for k in keys {
        r.call(&vec![b("DUMP"), b(&k)]);
        r.call(&vec![b("PTTL"), b(&k)]);
    }
    r.close(How::Fin, CEnd::Closed);
}
fn prop(p: &Plan) -> String {
    p.property.clone()
}
/// Tags of a linearizability violation in the plans of each property.
fn lin_tags(p: &Plan) -> Vec<String> {
    let mut v = vec!["C01".to_string()];
    if matches!(p.property.as_str(), "C02" | "C04" | "C06" | "C08" | "C15" | "C16") {
        v.push(p.property.clone());
    }
    if p.property == "C15" {
        v = vec!["C01".into()];
    }
    v
}
fn kv(p: &Plan) {
    w().machines.entry(1).or_default().max_connections = p.get("max_connections") as u32;
    boot_server(1);
    wait_listening(1);
    start_faults();
    start_clients();
    if !finish_clients(p) {
        return;
    }
    if p.get("alone") > 0 {
        alone();
    }
    if p.get("prefix") > 0 {
        // what is still under way on abandoned connections arrives
        sleep_ns(5 * SEC);
    }
    final_reads(1, 1);
    if p.get("prefix") > 0 {
        prefix_check();
    }
    if p.get("flush_mem") > 0 {
        flush_memory();
    }
    let q = p.get("quiet_ms");
    if q > 0 {
        idle_check(&[1], q as u64 * MS, 60);
    }
    closed_with_client();
    health(&[1]);
    let me = prop(p);
    if me == "C04" {
        copy_tags("machine", "C04");
    }
    let mut tags = vec!["C03", "C15"];
    if matches!(me.as_str(), "C04" | "C16") {
        tags.push(&me);
    }
    conn_health(&tags);
    if me == "C16" {
        object_ranges();
        copy_tags("machine", "C16");
    }
    let t = lin_tags(p);
    lin_check(1, &t.iter().map(String::as_str).collect::<Vec<_>>());
}
/// Violations found by a general check also break the property this plan is about.
pub fn copy_tags(prefix: &str, prop: &str) {
    for v in &mut w().viols {
        if v.msg.starts_with(prefix) && !v.props.iter().any(|p| p == prop) {
            v.props.push(prop.to_string());
        }
    }
}
/// The server gives up a connection once the client did.
pub fn closed_with_client() {
    sleep_ns(2 * SEC);
    let mut bad = vec![];
    for c in &w().conns {
        let Some(n) = c.net else { continue };
        let k = &sim().net.conns[n as usize];
        if k.accepted_at.is_some() && k.closed_at[0] != u64::MAX && k.closed_at[1] == u64::MAX && now() - k.closed_at[0] > SEC {
            bad.push(format!("connection {n}: the client closed it {} ms ago but the server still holds it", (now() - k.closed_at[0]) / MS));
        }
    }
    for m in bad.into_iter().take(3) {
        viol(&["C04", "C05", "C15"], m);
    }
}
/// Most connections the server held at the same time.
fn most_served() -> (usize, u64) {
    let mut ev: Vec<(u64, i32)> = vec![];
    for c in &sim().net.conns {
        // a snapshot process keeps descriptors open after the server itself is done with them
        if c.addr[1].1 != PORT || c.shared {
            continue;
        }
        if let Some(a) = c.accepted_at {
            ev.push((a, 1));
            if c.closed_at[1] != u64::MAX {
                ev.push((c.closed_at[1], -1));
            }
        }
    }
    ev.sort_unstable();
    let (mut n, mut top, mut at) = (0i32, 0, 0);
    for (t, d) in ev {
        n += d;
        if n > top {
            top = n;
            at = t;
        }
    }
    (top as usize, at)
}
/// The connection limit.
fn limit(p: &Plan) {
    let l = p.get("max_connections") as usize;
    w().machines.entry(1).or_default().max_connections = l as u32;
    boot_server(1);
    wait_listening(1);
    start_faults();
    start_clients();
    if !finish_clients(p) {
        viol(&["C05"], "clients waiting for a free connection are never served".to_string());
        return;
    }
    closed_with_client();
    {
        // accept errors still to come show at the next attempt
        let mut r = Runner::extra(1, 98);
        r.op_timeout = 400 * SEC;
        r.ask(&cmd!["GET", "cap0"]);
        r.close(How::Fin, CEnd::Closed);
        sleep_ns(200 * MS);
    }
    // capacity: what is left over by connections that never ended is known
    let leaked = w().conns.iter().filter_map(|c| c.net).filter(|n| {
        let k = &sim().net.conns[*n as usize];
        k.accepted_at.is_some() && k.closed_at[1] == u64::MAX && k.closed_at[0] == u64::MAX
    }).count();
    let free = l - leaked.min(l);
    for round in 0..2 {
        let mut rs: Vec<Runner> = (0..free).map(|i| Runner::extra(1, 100 + i as u32)).collect();
        for (i, r) in rs.iter_mut().enumerate() {
            r.op_timeout = 5 * SEC;
            if r.ask(&cmd!["SET", format!("cap{i}"), round]) != Some(Resp::Simple(b"OK".to_vec())) {
                viol(&["C05"], format!("with {leaked} connections in use and a limit of {l}, connection number {} is not served", leaked + i + 1));
                return;
            }
        }
        // all of them at the same time still work, one more does not
        for (i, r) in rs.iter_mut().enumerate() {
            if r.ask(&cmd!["GET", format!("cap{i}")]).is_none() {
                viol(&["C05"], format!("connection {i} of {free} is no longer served"));
                return;
            }
        }
        let mut x = Runner::extra(1, 99);
        if x.open() {
            let (got, open) = x.raw(&crate::resp::encode(&cmd!["GET", "cap0"]), 2 * SEC);
            if !got.is_empty() {
                viol(&["C05"], format!("one connection more than the limit of {l} is served"));
            }
            if free > 0 {
                rs[0].close(How::Fin, CEnd::Closed);
                let (got, _) = if open { x.raw(b"", SEC) } else { (vec![], false) };
                if got.is_empty() {
                    viol(&["C05"], "a client over the limit is not served when a connection ends".to_string());
                }
            }
            x.close(How::Fin, CEnd::Closed);
        }
        for r in &mut rs {
            r.close(How::Fin, CEnd::Closed);
        }
        sleep_ns(200 * MS);
    }
    let (top, at) = most_served();
    probe_n("most_connections_at_once", top as u64);
    if top > l {
        viol(&["C05"], format!("{top} connections were being served at {} us, the limit is {l}", at / 1000));
    }
    health(&[1]);
    conn_health(&["C05", "C15"]);
    lin_check(1, &["C01"]);
}
/// OBJECT IDLETIME never exceeds what the clock of the machine has seen, FREQ stays within its 16 bits.
fn object_ranges() {
    let mut bad = vec![];
    let restored = w().hist.iter().any(|h| cmd_name(&h.cmd) == "RESTORE" && h.cmd.iter().any(|a| a.bytes().eq_ignore_ascii_case(b"IDLETIME")));
    for h in &w().hist {
        if cmd_name(&h.cmd) == "OBJECT" && h.cmd.len() > 1 {
            if let Some(Resp::Int(i)) = &h.reply {
                let sub = String::from_utf8_lossy(&h.cmd[1].bytes()).to_ascii_uppercase();
                let (lo, hi, _) = wall_window(h.target, 0, h.ret_ns);
                let top = if sub == "FREQ" {
                    65_535
                } else if restored {
                    hi / 1000 + 1
                } else {
                    (hi - lo) / 1000 + 11
                };
                if *i < 0 || *i as u64 > top {
                    bad.push(format!("{} replied {i}, at most {top} is possible", cmd_str(&h.cmd)));
                }
            }
        }
    }
    for m in bad {
        viol(&["C16"], m);
    }
}
fn norm(c: &Cmd, r: &Resp) -> Resp {
    let n = cmd_name(c);
    match r {
        Resp::Array(v) if n == "SMEMBERS" => {
            let mut v = v.clone();
            v.sort_by_key(|x| format!("{x:?}"));
            Resp::Array(v)
        }
        Resp::Array(v) if n == "HGETALL" => {
            let mut q: Vec<Vec<Resp>> = v.chunks(2).map(<[Resp]>::to_vec).collect();
            q.sort_by_key(|x| format!("{x:?}"));
            Resp::Array(q.concat())
        }
        r => r.clone(),
    }
}
/// Every client owns its keys: the same requests sent again one at a time, each in one packet and awaited,
/// must get the same replies.
fn alone() {
    let mut r = Runner::extra(1, 7);
    r.ask(&cmd!["FLUSHALL", "SYNC"]);
    let n = w().plan.clients.len();
    let from = w().hist.len();
    let mut compared = 0;
    for c in 0..n {
        let ids: Vec<usize> = (0..from).filter(|i| w().hist[*i].client == c && !w().hist[*i].never).collect();
        for i in ids {
            let (cmd, before) = (w().hist[i].cmd.clone(), w().hist[i].reply.clone());
            let after = r.ask(&cmd);
            let Some(b) = before else { continue };
            let Some(a) = after else {
                viol(&["C03", "C15"], format!("no reply to {} sent alone", cmd_str(&cmd)));
                return;
            };
            compared += 1;
            if norm(&cmd, &a) != norm(&cmd, &b) {
                viol(&["C03"], format!("{} was answered {b:?} in its pipeline but {a:?} when sent alone", cmd_str(&cmd)));
                return;
            }
        }
    }
    r.close(How::Fin, CEnd::Closed);
    probe_n("replies_compared_with_request_sent_alone", compared);
}
/// Tokens T.<client>.<batch>.<index> in the shared logs: at most once, acknowledged ones present, and per
/// connection a prefix of what was sent.
fn prefix_check() {
    let mut r = Runner::extra(1, 2);
    let mut seen: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
    let mut order: BTreeMap<Vec<u8>, (usize, usize)> = BTreeMap::new();
    for k in 0..2 {
        match r.ask(&cmd!["LRANGE", format!("log{k}"), "0", "-1"]) {
            Some(Resp::Array(v)) => {
                for (pos, x) in v.iter().enumerate() {
                    let t = x.text().unwrap_or_default();
                    *seen.entry(t.clone()).or_insert(0) += 1;
                    order.insert(t, (k, pos));
                }
            }
            o => viol(&["C03", "C15"], format!("reading log{k}: {o:?}")),
        }
    }
    r.close(How::Fin, CEnd::Closed);
    for (t, n) in &seen {
        if *n > 1 {
            viol(&["C02"], format!("{} took effect {n} times", crate::resp::show(t)));
        }
    }
    let toks = |c: &Cmd| -> Option<Vec<u8>> {
        let t = c.get(2)?.bytes();
        (cmd_name(c) == "RPUSH" && t.starts_with(b"T.")).then_some(t)
    };
    let mut known: Vec<Vec<u8>> = vec![];
    let mut by_conn: BTreeMap<usize, Vec<&OpRec>> = BTreeMap::new();
    for h in &w().hist {
        if let Some(t) = toks(&h.cmd) {
            known.push(t);
            by_conn.entry(h.conn).or_default().push(h);
        }
    }
    for t in seen.keys() {
        if !known.contains(t) {
            viol(&["C02"], format!("{} was never sent", crate::resp::show(t)));
        }
    }
    let mut v = vec![];
    let mut n = 0;
    for (conn, ops) in by_conn {
        let mut gap: Option<&OpRec> = None;
        let mut last: [Option<usize>; 2] = [None, None];
        for h in ops {
            let t = toks(&h.cmd).unwrap();
            let there = seen.contains_key(&t);
            n += 1;
            if !there && h.ret != PENDING && h.reply.as_ref().map_or(false, |r| !r.is_err()) {
                v.push(format!("{} was acknowledged but had no effect", cmd_str(&h.cmd)));
            }
            if there && !h.sent && h.ret == PENDING {
                v.push(format!("{} took effect although it was never sent completely", cmd_str(&h.cmd)));
            }
            if there {
                if let Some(g) = gap {
                    v.push(format!("connection {conn}: {} took effect but the earlier {} did not", cmd_str(&h.cmd), cmd_str(&g.cmd)));
                }
                let (k, pos) = order[&t];
                if last[k].map_or(false, |l| l > pos) {
                    v.push(format!("connection {conn}: {} took effect before an earlier request of its connection", cmd_str(&h.cmd)));
                }
                last[k] = Some(pos);
            } else if gap.is_none() {
                gap = Some(h);
            }
        }
    }
    probe_n("unique_requests_accounted", n);
    for m in v {
        viol(&["C02"], m);
    }
}
/// Store large values, flush, and see their memory go.
fn flush_memory() {
    let m = w().machines[&1].node;
    let mut r = Runner::extra(1, 3);
    let round = |r: &mut Runner, kind: &str| {
        for i in 0..6 {
            let tag = if i == 5 { "{hia}" } else { "" };
            r.ask(&vec![b("SETEX"), b(format!("{tag}fm{i}")), b("1000"), Arg::B(filler(20_000, i as u8))]);
            r.ask(&vec![b("RPUSH"), b(format!("fml{i}")), Arg::B(filler(20_000, i as u8))]);
        }
        sleep_ns(20 * MS);
        r.ask(&cmd!["FLUSHALL", kind]);
        sleep_ns(200 * MS);
        simrt::alloc::live(m)
    };
    let a = round(&mut r, "SYNC");
    let z = round(&mut r, "ASYNC");
    let y = round(&mut r, "SYNC");
    r.close(How::Fin, CEnd::Closed);
    probe("flush_memory_checked");
    if z - a > 10_000 || y - a > 10_000 {
        viol(&["C08", "C07"], format!("memory of flushed values stays: {a} bytes after one round of store and flush, {z} and {y} after the next two"));
    }
}
/// Nobody asks for anything: the server must hardly run.
pub fn idle_check(machines: &[u32], ns: u64, steps_per_s: u64) {
    sleep_ns(SEC);
    let count = || -> u64 { sim().coro_list().len() as u64 };
    let _ = count;
    let s0 = sim().steps;
    sleep_ns(ns);
    let used = sim().steps - s0;
    probe("idle_periods");
    let allow = steps_per_s * (ns / SEC).max(1) * machines.len() as u64 + 200;
    if used > allow {
        let mut busy: Vec<(u64, String)> = sim().coro_list().into_iter().map(|(n, s, st)| (st, format!("{n} ({s}) {st} steps"))).collect();
        busy.sort_by(|a, b| b.0.cmp(&a.0));
        let top: Vec<String> = busy.into_iter().take(3).map(|x| x.1).collect();
        viol(&["C15"], format!("idle servers took {used} scheduler steps in {} ms; busiest: {}", ns / MS, top.join(", ")));
    }
}
/// Reclamation of expired and deleted data, measured by the memory charged to the server process.
fn reclaim(p: &Plan) {
    let watch = if p.get("copy") == 2 { 2 } else { 1 };
    if p.get("copy") > 0 {
        // a leader and a follower: whose memory is watched is up to the plan
        if !crate::cluster::start_pd(1) {
            return;
        }
        for m in 1..=2 {
            w().machines.entry(m).or_default().from_pd = true;
            boot_server(m);
            wait_listening(m);
            sleep_ns(3 * SEC);
        }
    } else {
        boot_server(1);
        wait_listening(1);
    }
    let node_id = w().machines[&watch].node as usize;
    let nk = p.get("keys").max(1) as u64;
    let size = p.get("value").max(100) as usize;
    let ttl_max = p.get("ttl_max_ms").max(5) as u64;
    let mode = p.get("mode") as u64;
    let mut r = simrt::rng::Rng::new(p.seed ^ 0x7ec1a1);
    let edge = p.seed as usize % 15;
    let key = |i: u64| match i {
        0 => format!("{{{}}}r", crate::wire::EDGES[edge]),
        i => format!("r{i}"),
    };
    let val = |i: u64| Arg::B(filler(size, i as u8));
    let fixed = |c: &mut Runner, i: u64, ms: u64| {
        c.ask(&vec![b("SET"), b(key(i)), val(i), b("PX"), b(ms.to_string())]);
    };
    // warm up: every table and buffer reaches its size
    let mut base = 0;
    let mut tables = 0;
    for half in 0..2 {
        let mut c = Runner::extra(1, 4);
        for _ in 0..2 {
            for i in 0..nk {
                fixed(&mut c, i, 50);
                c.ask(&vec![b("RPUSH"), b(format!("l{i}")), val(i)]);
                c.ask(&vec![b("DEL"), b(format!("l{i}"))]);
            }
        }
        c.close(How::Fin, CEnd::Closed);
        sleep_ns(2 * SEC);
        base = simrt::alloc::live(node_id as u32);
        if half == 0 {
            // what FLUSHALL gives back when there is no data: the empty tables
            let mut c = Runner::extra(1, 4);
            c.ask(&cmd!["FLUSHALL", "SYNC"]);
            c.close(How::Fin, CEnd::Closed);
            sleep_ns(2 * SEC);
            tables = (base - simrt::alloc::live(node_id as u32)).max(0);
        }
    }
    let mut live_keys: BTreeMap<u64, Option<u64>> = BTreeMap::new();
    for round in 0..p.get("rounds").max(1) {
        let mut c = Runner::extra(1, 4);
        let mut last_due = now();
        for i in 0..nk {
            live_keys.remove(&i);
            // some history, then a final state
            let mut hist = r.below(5);
            while hist > 0 {
                hist -= 1;
                let t = r.log_range(1, ttl_max);
                let cmd = match r.below(11) {
                    0 => vec![b("SET"), b(key(i)), val(i)],
                    1 | 2 => vec![b("SET"), b(key(i)), val(i), b("PX"), b(t.to_string())],
                    3 => vec![b("PEXPIRE"), b(key(i)), b(t.to_string())],
                    4 => vec![b("PEXPIRE"), b(key(i)), b((t * 1000).to_string())],
                    5 => vec![b("SET"), b(key(i)), val(i), b("KEEPTTL")],
                    6 => vec![b("DEL"), b(key(i))],
                    7 => vec![b("RESTORE"), b(key(i)), b(t.to_string()), b(crate::wire::payload(&crate::model::Val::Str(crate::model::Sc::T(filler(size, 1))))), b("REPLACE")],
                    8 => vec![b("SETEX"), b(key(i)), b((1 + t).to_string()), val(i)],
                    9 => vec![b("PEXPIREAT"), b(key(i)), b((wall_ms_of(node_id as u32) + t * 7).to_string())],
                    _ => {
                        sleep_ns(r.log_range(10, ttl_max * 1000) * US);
                        vec![b("SET"), b(key(i)), val(i), b("PX"), b(t.to_string()), b(if r.chance(1, 2) { "NX" } else { "XX" })]
                    }
                };
                c.ask(&cmd);
            }
            let t = r.log_range(1, ttl_max);
            match r.below(8) {
                0 if mode & 1 == 0 => {
                    c.ask(&vec![b("DEL"), b(key(i))]);
                }
                1 if mode & 2 == 0 => {
                    // stays
                    c.ask(&vec![b("SET"), b(key(i)), val(i)]);
                    live_keys.insert(i, None);
                    if r.chance(1, 2) {
                        let far = 10_000_000 + r.below(1000);
                        c.ask(&vec![b("PEXPIRE"), b(key(i)), b(far.to_string())]);
                    }
                }
                2 => {
                    c.ask(&vec![b("SET"), b(key(i)), val(i)]);
                    c.ask(&vec![b("PEXPIRE"), b(key(i)), b(t.to_string())]);
                }
                3 => {
                    let kind = r.below(4);
                    let del = vec![b("DEL"), b(key(i))];
                    c.ask(&del);
                    match kind {
                        0 => c.ask(&vec![b("RPUSH"), b(key(i)), val(i), val(i)]),
                        1 => c.ask(&vec![b("HSET"), b(key(i)), b("f"), val(i)]),
                        2 => c.ask(&vec![b("SADD"), b(key(i)), val(i)]),
                        _ => c.ask(&vec![b("ZADD"), b(key(i)), b("1"), val(i)]),
                    };
                    c.ask(&vec![b("PEXPIREAT"), b(key(i)), b((wall_ms_of(node_id as u32) + t).to_string())]);
                }
                4 => {
                    // expiry already in the past
                    c.ask(&vec![b("SET"), b(key(i)), val(i)]);
                    c.ask(&vec![b("PEXPIREAT"), b(key(i)), b((wall_ms_of(node_id as u32).saturating_sub(r.below(2000))).to_string())]);
                }
                _ => fixed(&mut c, i, t),
            }
            last_due = last_due.max(now() + t * MS);
        }
        if mode & 28 == 4 && round % 2 == 1 {
            sleep_ns(50 * MS);
            c.ask(&cmd!["FLUSHALL", if r.chance(1, 2) { "SYNC" } else { "ASYNC" }]);
            live_keys.clear();
            last_due = now();
        }
        // bookkeeping churn
        let churn = p.get("churn").max(0) as u64;
        for j in 0..churn {
            if j % 40 == 39 {
                // queues between tasks keep the capacity of their longest backlog: keep that bounded
                sleep_ns(30 * MS);
            }
            if p.get("churn_flush") > 0 {
                // expiries of keys that FLUSHALL removes
                c.ask(&vec![b("SET"), b(format!("churn{}", j % 40)), b("x"), b("PX"), b((100_000_000 + j * 7).to_string())]);
                if j % 40 == 39 || j + 1 == churn {
                    sleep_ns(30 * MS);
                    let sync = match p.get("churn_flush") {
                        1 => true,
                        2 => false,
                        _ => r.chance(1, 2),
                    };
                    c.ask(&cmd!["FLUSHALL", if sync { "SYNC" } else { "ASYNC" }]);
                    live_keys.clear();
                }
                continue;
            }
            match mode >> 3 & 3 {
                0 => c.ask(&vec![b("SET"), b("churn"), b("x"), b("PX"), b((100_000_000 + j * 7).to_string())]),
                1 => {
                    c.ask(&vec![b("SET"), b("churn"), b("x"), b("EX"), b((1_000_000 + j).to_string())]);
                    c.ask(&vec![b("DEL"), b("churn")])
                }
                2 => {
                    c.ask(&vec![b("SETEX"), b("churn"), b((1_000_000 + j).to_string()), b("x")]);
                    c.ask(&vec![b("SET"), b("churn"), b("x")])
                }
                _ => {
                    if j == 0 {
                        c.ask(&vec![b("SADD"), b("churn"), b("x")]);
                    }
                    c.ask(&vec![b("EXPIRE"), b("churn"), b((1_000_000 + j).to_string())])
                }
            };
        }
        if churn > 0 {
            c.ask(&vec![b("DEL"), b("churn")]);
            last_due = last_due.max(now());
        }
        c.close(How::Fin, CEnd::Closed);
        until(last_due + 2 * SEC);
        let got = simrt::alloc::live(node_id as u32);
        let keep: i64 = live_keys.len() as i64 * (size as i64 + 400);
        let excess = got - base - keep;
        probe_n("reclaim_checks", 1);
        simrt::trace!("reclaim base {} got {} keep {}", base, got, keep);
        // nothing live was removed
        let mut c = Runner::extra(watch, 5);
        for i in 0..nk {
            let want = live_keys.contains_key(&i);
            match c.ask(&vec![b("GET"), b(key(i))]) {
                Some(Resp::Nil) if !want => {}
                Some(x) if want && x.text().map_or(false, |v| v == filler(size, i as u8)) => {}
                x => viol(
                    &["C07", "C06"],
                    format!("round {round}: key {} {} but GET replies {}", key(i), if want { "never expired" } else { "expired or was deleted" }, x.map_or("nothing".into(), |x| format!("{x:?}"))),
                ),
            }
        }
        c.close(How::Fin, CEnd::Closed);
        sleep_ns(200 * MS);
        if excess > 9_000 {
            // data (FLUSHALL gives it back), or bookkeeping? Queues between tasks keep the capacity of
            // their longest backlog, which is bounded.
            let mut c = Runner::extra(1, 6);
            c.ask(&cmd!["FLUSHALL", "SYNC"]);
            c.close(How::Fin, CEnd::Closed);
            sleep_ns(2 * SEC);
            let after = simrt::alloc::live(node_id as u32);
            let freed = got - after - tables - keep;
            let what = format!("round {round}: 2 s after the last expiry of {nk} keys ({} of them live, values of {size} bytes, {churn} expiry changes of another key) the server holds {excess} bytes too much", live_keys.len());
            live_keys.clear();
            if freed > 9_000 {
                viol(&["C07"], format!("{what}; {freed} bytes of it are data that FLUSHALL gives back"));
                return;
            }
            if after - base > 26_000 + 24 * nk as i64 {
                viol(&["C07"], format!("{what}; {} bytes stay even after FLUSHALL", after - base));
                return;
            }
        }
    }
    health(&[1]);
    if p.get("copy") > 0 {
        health(&[2]);
    }
    conn_health(&["C03", "C15"]);
    lin_check(1, &["C01", "C06"]);
}
/// The run did not end by itself.
pub fn stuck(m: &str) {
    let p = w().plan.property.clone();
    if matches!(p.as_str(), "C03" | "C04" | "C05" | "C09" | "C12" | "C14" | "C16" | "C17") {
        viol(&[p.as_str()], format!("the run never ends: {m}"));
    }
}
pub fn state_hash() -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for x in &w().hist {
        x.cmd.hash(&mut h);
        x.reply.hash(&mut h);
    }
    w().more.2.hash(&mut h);
    h.finish()
}
