//! Start-up and shutdown of the servers.
use crate::{
    client::*,
    cluster::{beat_cmd, init_cmd, start_pd, PdConn},
    cmd,
    plan::*,
    resp::Resp,
    scenario::*,
    wire,
    world::*,
};
use simrt::*;

/// Does the machine answer? None: no connection possible.
fn serves(m: u32, limit: u64) -> Option<bool> {
    let mut r = Runner::extra(m, 70);
    r.op_timeout = limit;
    if !r.open() {
        return None;
    }
    let a = r.ask(&cmd!["SET", format!("alive{m}"), "1"]);
    r.close(How::Fin, CEnd::Closed);
    Some(a.is_some())
}

// ------------------------------------------------------------ shutdown
pub fn shutdown(p: &Plan) {
    let n = p.get("servers").max(1) as u32;
    let cluster = p.get("cluster") > 0;
    if cluster && !start_pd(1) {
        return;
    }
    for m in 1..=n {
        let mm = w().machines.entry(m).or_default();
        mm.from_pd = cluster;
        mm.max_connections = p.get("max_connections") as u32;
    }
    boot_server(1);
    wait_listening(1);
    start_faults();
    start_clients();
    let target = p.get("target").max(1) as u32;
    let at = p.get("signal_us") as u64 * US;
    until(at);
    if !alive(target) {
        probe("signal_after_the_end");
        return;
    }
    let id = node_of(target);
    let installed = node(id).sigint_installed;
    apply_fault(&FaultKind::Sigint { node: target });
    let t = now();
    if !installed {
        probe("signal_during_start_up");
    }
    // everything that happens around this process may be cut short from now on
    let stall: u64 = p.faults.iter().map(|f| if let FaultKind::Stall { us, .. } = f.kind { us * US } else { 0 }).sum();
    let limit = t + 2 * SEC + stall;
    while installed && returned(target).is_none() && node(id).alive && now() < limit {
        sleep_ns(20 * MS);
    }
    if installed && returned(target).is_none() && node(id).alive {
        viol(&["C17"], format!("{} ms after the shutdown signal `run` has not returned: {}", (now() - t) / MS, blocked_report(Some(id))));
        return;
    }
    let ret = returned(target).unwrap_or(t);
    while node(id).alive && now() < ret + 30 * SEC + stall {
        sleep_ns(50 * MS);
    }
    if node(id).alive {
        viol(&["C17"], format!("{} ms after `run` returned the process still exists: {}", (now() - ret) / MS, blocked_report(Some(id))));
        return;
    }
    probe_n("shutdown_ms_total", (now() - t) / MS);
    probe("clean_shutdowns");
    if installed && node(id).exit_code != Some(0) {
        viol(&["C17", "C15"], format!("the process ends with {:?} after the shutdown signal", node(id).exit_code));
    }
    if serves(target, SEC).is_some() {
        viol(&["C17"], "a connection is accepted after the server shut down".to_string());
    }
    for c in &sim().net.conns {
        if c.addr[1] == (ip(target), PORT) && c.accepted_at.map_or(false, |a| a > ret + MS) {
            viol(&["C17"], format!("a connection is accepted {} us after `run` returned", (c.accepted_at.unwrap() - ret) / US));
            break;
        }
    }
    if !finish_clients(p) {
        return;
    }
    for c in &mut w().conns {
        if c.target == target && !c.raw && (c.closed_ns == 0 || c.closed_ns >= t) {
            if let CEnd::Malformed(m) = &c.end {
                viol(&["C17", "C03"], format!("a reply around the shutdown is malformed: {m}"));
            }
            c.tainted = true;
        }
    }
    // nothing died on the way
    for m in 1..=n {
        let mm = &w().machines[&m];
        if mm.node == 0 {
            continue;
        }
        let nd = node(mm.node);
        if !nd.panics.is_empty() || !nd.task_deaths.is_empty() {
            let mut tags = vec!["C15"];
            if m == target {
                tags.push("C17");
            }
            viol(&tags, format!("machine {m}: panics {:?}, dead tasks {:?}", nd.panics, nd.task_deaths));
        }
    }
    if !cluster {
        conn_health(&["C03", "C15"]);
        lin_check(1, &["C17", "C01"]);
    }
}

// ------------------------------------------------------------ accept errors
pub fn accept(p: &Plan) {
    w().machines.entry(1).or_default();
    boot_server(1);
    wait_listening(1);
    start_clients();
    let at = p.get("at_us") as u64 * US;
    let n = p.get("errors") as u32;
    until(at);
    apply_fault(&FaultKind::AcceptErr { node: 1, port: PORT, n, errno: p.get("errno") as i32 });
    let id = node_of(1);
    let mut r = Runner::extra(1, 71);
    r.op_timeout = 300 * SEC;
    let t = now();
    let a = r.ask(&cmd!["SET", "patient", "1"]);
    let took = now() - t;
    // 1 + 2 + 4 + ... seconds
    if n <= 7 {
        let want = ((1u64 << n) - 1) * SEC;
        if a.map_or(true, |a| !a.is_ok()) || took > want + 3 * SEC {
            viol(&["C17", "C05"], format!("{n} failing accepts in a row: a new client is not served {} ms later", took / MS));
        } else {
            probe("accept_recovered");
        }
        if took + 500 * MS < want {
            probe("accept_recovered_early");
        }
        r.close(How::Fin, CEnd::Closed);
    } else {
        let lim = t + 140 * SEC;
        while node(id).alive && now() < lim {
            sleep_ns(100 * MS);
        }
        if returned(1).is_none() {
            viol(&["C17"], format!("accepting failed {n} times in a row, but `run` did not return within {} s", (now() - t) / SEC));
        } else if node(id).alive {
            viol(&["C17"], "the process stays although `run` gave up".to_string());
        } else {
            probe("accept_gave_up");
            if returned(1).unwrap() < t + 100 * SEC {
                viol(&["C17"], format!("the server gave up after {} s already", (returned(1).unwrap() - t) / SEC));
            }
        }
        r.close(How::Fin, CEnd::Closed);
        for c in &mut w().conns {
            c.tainted = true;
        }
    }
    if !finish_clients(p) {
        return;
    }
    if n <= 7 {
        health(&[1]);
        copy_tags("machine", "C17");
    } else {
        let nd = node(id);
        if !nd.panics.is_empty() || !nd.task_deaths.is_empty() {
            viol(&["C15", "C17"], format!("panics {:?}, dead tasks {:?}", nd.panics, nd.task_deaths));
        }
    }
    conn_health(&["C17", "C03", "C15"]);
    lin_check(1, &["C01"]);
}

// ------------------------------------------------------------ start-up
pub fn startup(p: &Plan) {
    let kind = p.get("kind");
    w().machines.entry(1).or_default().from_pd = true;
    let mut beats: Option<(u32, wire::Status)> = None;
    match kind {
        // no such host
        0 => {}
        // nobody listens
        1 => {
            add_node("idle machine", ip(PD), 1);
        }
        // no group
        2 => {
            if !start_pd(0) {
                return;
            }
        }
        _ => {
            if !start_pd(1) {
                return;
            }
        }
    }
    if matches!(kind, 3 | 4 | 5) {
        // a leader nobody can reach, that never answers or talks something else
        let (a, f) = match kind {
            3 => ("10.0.0.77:6379".to_string(), "10.0.0.77:6400".to_string()),
            4 => {
                add_node("idle machine", ip(77), 1);
                ("10.0.0.77:6379".to_string(), "10.0.0.77:6400".to_string())
            }
            _ => (format!("{}:{PD_PORT}", ip_str(PD)), format!("{}:{PD_PORT}", ip_str(PD))),
        };
        let mut c = PdConn::open(SEC).unwrap();
        if let Ok(Resp::Bulk(b)) = c.call(&init_cmd(1, &a, &f), 5 * SEC) {
            beats = bincode::deserialize(&b).ok().map(|s| (0, s));
        }
        let st = beats.unwrap().1;
        spawn_on(
            0,
            "leader on paper",
            Box::new(move || loop {
                let _ = c.call(&beat_cmd(&st), 5 * SEC);
                sleep_ns(SEC);
            }),
        );
    }
    if kind == 6 {
        // the port is taken
        let _k = Kernel::enter();
        net::power_on(ip(1));
        let s = add_node("squatter", ip(1), 1);
        let fd = net::new_sock(s);
        net::bind_listen(fd, (ip(1), FWD_PORT)).expect("free port");
    }
    start_faults();
    boot_server(1);
    let id = node_of(1);
    let must_die = kind <= 6;
    start_clients();
    let limit = if kind == 0 { 140 } else { 20 };
    let t = now();
    while node(id).alive && now() < t + limit * SEC {
        sleep_ns(100 * MS);
    }
    let took = (now() - t) / MS;
    wait_faults(now() + 600 * SEC);
    let stall: u64 = p.faults.iter().map(|f| if let FaultKind::Stall { us, .. } = f.kind { us * US } else { 0 }).sum();
    sleep_ns(stall + SEC);
    if must_die && node(id).alive {
        viol(&["C17"], format!("{took} ms after its start the server still runs although it cannot work (case {kind}): {}", blocked_report(Some(id))));
        return;
    }
    if !node(id).alive {
        probe("start_up_failures");
        if node(id).exit_code == Some(0) {
            viol(&["C17"], "the server could not start but reports success".to_string());
        }
        for h in &w().hist {
            if h.reply.is_some() && kind < 6 {
                viol(&["C17"], format!("a server that could not start answered {}", cmd_str(&h.cmd)));
                break;
            }
        }
        if kind == 7 && p.faults.is_empty() {
            viol(&["C17"], format!("the server does not start: {:?}", node(id).exit_code));
        }
    } else if serves(1, 10 * SEC) != Some(true) {
        viol(&["C17"], format!("the server neither gave up nor serves {took} ms after its start"));
    } else {
        probe("start_ups");
    }
    for c in &mut w().conns {
        c.tainted = true;
    }
    finish_clients(p);
    let nd = node(id);
    if !nd.panics.is_empty() || !nd.task_deaths.is_empty() {
        viol(&["C15", "C17"], format!("panics {:?}, dead tasks {:?}", nd.panics, nd.task_deaths));
    }
}
