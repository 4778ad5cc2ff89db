//! Snapshots: fetching, completeness, and whether one instant explains all their keys.
use crate::{
    client::*,
    model::{self, Bytes, KS},
    plan::*,
    scenario::*,
    wire,
    world::*,
};
use simrt::*;
use std::collections::BTreeMap;

pub const ALL_SLOTS: i64 = 16_384;
pub struct Snap {
    pub slot: i64,
    pub target: u32,
    pub inv_ns: u64,
    pub first_ns: u64,
    pub end_ns: u64,
    pub bytes: Vec<u8>,
    /// how reading ended: terminator then end of stream; end of stream before it; the client gave up; ...
    pub end: String,
    /// a fault (or the client itself) explains an early end
    pub tainted: bool,
}
/// a = [slot, read_chunk, read_gap_us, give_up_after_bytes (0: never), first_read_after_us, silent]
pub fn fetch(r: &mut Runner, a: &[i64]) {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let slot = g(0);
    let chunk = g(1).max(1) as usize;
    let give_up = g(3).max(0) as usize;
    r.close(How::Fin, CEnd::Closed);
    if !r.open() {
        return;
    }
    let (fd, rec) = {
        let io = r.io.as_ref().unwrap();
        (io.fd, io.rec)
    };
    let forks_fail = |x: u64| x != sim().stats.fork_errors;
    let fe = sim().stats.fork_errors;
    let mut s = Snap { slot, target: r.target, inv_ns: now(), first_ns: u64::MAX, end_ns: 0, bytes: vec![], end: String::new(), tainted: false };
    let req = crate::resp::encode(&vec![b("SYNCSNAPSHOT"), b(slot.to_string())]);
    let mut pos = 0;
    while pos < req.len() {
        match net::try_write(fd, &req[pos..], Some(net::Waiter::Coro(current()))) {
            Ok(n) => pos += n,
            Err(net::EAGAIN) => park("snapshot request"),
            Err(_) => break,
        }
    }
    probe("snapshots_requested");
    sleep_ns(g(4).max(0) as u64 * US);
    let mut buf = vec![0u8; chunk];
    let mut patience = now() + r.op_timeout;
    loop {
        match net::try_read(fd, &mut buf, false, Some(net::Waiter::Coro(current()))) {
            Ok(0) => {
                s.end = "end of stream".into();
                break;
            }
            Ok(n) => {
                if s.first_ns == u64::MAX {
                    s.first_ns = now();
                }
                s.bytes.extend_from_slice(&buf[..n]);
                patience = now() + r.op_timeout;
                if give_up > 0 && s.bytes.len() >= give_up {
                    s.end = "gave up".into();
                    s.tainted = true;
                    break;
                }
                if g(2) > 0 {
                    sleep_ns(g(2) as u64 * US);
                }
            }
            Err(net::EAGAIN) => {
                if now() >= patience {
                    s.end = "nothing for too long".into();
                    break;
                }
                park_until("snapshot", patience);
            }
            Err(e) => {
                s.end = format!("error {e}");
                break;
            }
        }
    }
    s.end_ns = now();
    s.tainted |= w().conns[rec].tainted || forks_fail(fe);
    simrt::trace!("snapshot of slot {} from {}: {} bytes, {}", slot, r.target, s.bytes.len(), s.end);
    w().conns[rec].tainted = true;
    r.close(if s.end == "gave up" && g(5) > 0 { How::Rst } else { How::Fin }, CEnd::Closed);
    w().snaps.push(s);
}
/// Sequence of states of one key that only one client writes: (possible states, earliest start of the
/// operation that led to it, return of it).
pub struct Track {
    pub pos: Vec<(Vec<KS>, u64, u64)>,
    /// the writer lost track (unanswered write): states after that are unknown
    pub open: bool,
}
pub fn tracks(target: u32) -> BTreeMap<Bytes, Track> {
    let mut t: BTreeMap<Bytes, Track> = BTreeMap::new();
    for h in &w().hist {
        if h.target != target || h.never {
            continue;
        }
        let Some(keys) = model::keys_of(&h.cmd) else { continue };
        for k in keys {
            let e = t.entry(k.clone()).or_insert_with(|| Track { pos: vec![(vec![KS::none()], 0, 0)], open: false });
            if !model::is_write(&h.cmd) && cmd_name(&h.cmd) != "PTTL" {
                continue;
            }
            if h.ret == PENDING {
                e.open = true;
                continue;
            }
            let multi = model::keys_of(&h.cmd).map_or(0, |k| k.len()) > 1;
            let mut next: Vec<KS> = vec![];
            for s in &e.pos.last().unwrap().0 {
                for n in model::step(s, &h.cmd, &k, if multi { None } else { h.reply.as_ref() }, crate::lin::window(h)) {
                    if !next.contains(&n) {
                        next.push(n);
                    }
                }
            }
            e.pos.push((next, h.inv_ns, h.ret_ns));
        }
    }
    t
}
pub fn ns_of_wall(ms: u64) -> u64 {
    ms.saturating_sub(w().plan.sched.wall_base_ms).saturating_mul(MS)
}
/// Does the observed value fit the state? None stands for absent.
fn fits(s: &KS, got: Option<&(model::Val, u64)>) -> Option<u64> {
    match (&s.val, got) {
        (None, None) => Some(0),
        (Some(_), None) if s.exp != (0, 0) => Some(ns_of_wall(s.exp.0)),
        // expired but not reclaimed yet: nobody can see it any more
        (None, Some((_, e))) if *e > 0 => Some(ns_of_wall(*e)),
        (Some(v), Some((g, e))) => {
            let exp = if s.exp == (0, 0) { *e == 0 } else { s.exp.0 <= *e && *e <= s.exp.1 };
            (v.norm() == g.norm() && exp).then_some(0)
        }
        _ => None,
    }
}
fn one_instant(sn: &Snap, tr: &BTreeMap<Bytes, Track>, got: &BTreeMap<Bytes, (model::Val, u64)>, in_slot: &dyn Fn(&[u8]) -> bool) -> Result<usize, String> {
    let lo0 = sn.inv_ns;
    let hi0 = sn.first_ns.min(sn.end_ns);
    let mut all: Vec<(&Bytes, Vec<(u64, u64)>)> = vec![];
    for (k, t) in tr {
        if !in_slot(k) || t.open {
            continue;
        }
        let g = got.get(k);
        let mut iv: Vec<(u64, u64)> = vec![];
        for (i, p) in t.pos.iter().enumerate() {
            let hi = t.pos.get(i + 1).map_or(u64::MAX, |n| n.2);
            for s in &p.0 {
                if let Some(x) = fits(s, g) {
                    iv.push((p.1.max(x), hi));
                }
            }
        }
        iv.retain(|(a, z)| a <= z && *a <= hi0 && *z >= lo0);
        if iv.is_empty() {
            return Err(format!(
                "key {} is {} in the snapshot, which it never was between request ({} us) and first byte ({} us)",
                crate::resp::show(k),
                g.map_or("absent".to_string(), |g| format!("{:?} expiring {}", g.0, g.1)),
                lo0 / 1000,
                hi0 / 1000
            ));
        }
        all.push((k, iv));
    }
    let mut cand: Vec<u64> = all.iter().flat_map(|x| x.1.iter().map(|i| i.0.max(lo0))).collect();
    cand.push(lo0);
    cand.sort_unstable();
    cand.dedup();
    for t in cand.iter().filter(|t| **t <= hi0) {
        if all.iter().all(|(_, iv)| iv.iter().any(|(a, z)| a <= t && t <= z)) {
            return Ok(all.len());
        }
    }
    let d: Vec<String> = all.iter().take(8).map(|(k, iv)| format!("{}: {:?}", crate::resp::show(k), iv.iter().map(|x| (x.0 / 1000, x.1.min(u64::MAX / 2) / 1000)).collect::<Vec<_>>())).collect();
    Err(format!("no single instant explains the keys; possible instants (us): {}", d.join(", ")))
}
pub fn check_snaps(props: &[&str]) {
    let tr: BTreeMap<u32, BTreeMap<Bytes, Track>> = w().snaps.iter().map(|s| s.target).collect::<std::collections::BTreeSet<_>>().into_iter().map(|t| (t, tracks(t))).collect();
    let point = w().plan.get("no_point") == 0;
    let mut bad = vec![];
    for (i, s) in w().snaps.iter().enumerate() {
        let (slots, used) = match wire::decode_snapshot(&s.bytes) {
            Ok(x) => x,
            Err(wire::SnapErr::Incomplete) => {
                if !s.tainted && s.slot >= 0 && s.slot <= ALL_SLOTS {
                    bad.push(format!("snapshot {i} of slot {}: {} after {} bytes, before it was complete", s.slot, s.end, s.bytes.len()));
                }
                continue;
            }
            Err(wire::SnapErr::Bad(m)) => {
                bad.push(format!("snapshot {i} of slot {}: {m}", s.slot));
                continue;
            }
        };
        if s.slot < 0 || s.slot > ALL_SLOTS {
            bad.push(format!("a snapshot of slot {} which does not exist", s.slot));
            continue;
        }
        probe("snapshots_complete");
        if used < s.bytes.len() {
            bad.push(format!("snapshot {i}: {} bytes follow its end", s.bytes.len() - used));
        }
        if s.end == "nothing for too long" && !s.tainted {
            bad.push(format!("snapshot {i}: the stream stays open after the end of the snapshot"));
        }
        let mut ids: Vec<usize> = slots.iter().map(|x| x.0).collect();
        ids.sort_unstable();
        let want: Vec<usize> = if s.slot == ALL_SLOTS { (0..16_384).collect() } else { vec![s.slot as usize] };
        if ids != want {
            bad.push(format!("snapshot {i} of slot {} names {} slots, first {:?}", s.slot, ids.len(), ids.iter().take(3).collect::<Vec<_>>()));
            continue;
        }
        let mut got: BTreeMap<Bytes, (model::Val, u64)> = BTreeMap::new();
        for (_, d) in &slots {
            for (k, v) in &d.inner {
                let Some(val) = wire::to_val(&v.data) else {
                    bad.push(format!("snapshot {i}: key {} holds inconsistent data", crate::resp::show(k)));
                    continue;
                };
                if got.insert(k.clone(), (val, v.expires_at)).is_some() {
                    bad.push(format!("snapshot {i}: key {} appears twice", crate::resp::show(k)));
                }
                if s.slot != ALL_SLOTS && wire::slot_of(k) as i64 != s.slot {
                    bad.push(format!("snapshot {i} of slot {}: key {} does not belong to it", s.slot, crate::resp::show(k)));
                }
            }
        }
        if !point {
            continue;
        }
        for k in got.keys() {
            if !tr[&s.target].contains_key(k) {
                bad.push(format!("snapshot {i}: key {} was never written", crate::resp::show(k)));
            }
        }
        match one_instant(s, &tr[&s.target], &got, &|k| s.slot == ALL_SLOTS || wire::slot_of(k) as i64 == s.slot) {
            Ok(n) => probe_n("snapshot_keys_explained", n as u64),
            Err(m) => bad.push(format!("snapshot {i} of slot {}: {m}", s.slot)),
        }
    }
    for m in bad {
        viol(props, m);
    }
}
pub fn scenario(p: &Plan) {
    boot_server(1);
    wait_listening(1);
    start_faults();
    start_clients();
    if !finish_clients(p) {
        viol(&["C09"], "clients still waiting".to_string());
        return;
    }
    final_reads(1, 1);
    sleep_ns(2 * SEC);
    // nothing is left locked: one more snapshot and one more write
    let mut r = Runner::extra(1, 8);
    fetch(&mut r, &[ALL_SLOTS, 65_536]);
    r.ask(&crate::cmd!["SET", "after", "1"]);
    r.close(How::Fin, CEnd::Closed);
    closed_with_client();
    health(&[1]);
    copy_tags("machine", "C09");
    conn_health(&["C09", "C15"]);
    check_snaps(&["C09"]);
    lin_check(1, &["C01"]);
}
