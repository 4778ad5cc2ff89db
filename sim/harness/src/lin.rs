//! Linearizability of the recorded history against the per-key reference model (Wing & Gong search with
//! memoisation, one component per set of keys connected by multi-key commands).
use crate::{
    model::{self, Bytes, Win, KS},
    plan::*,
    resp::Resp,
    world::*,
};
use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, HashMap, HashSet},
    hash::{Hash, Hasher},
};

struct Sub {
    op: usize,
    key: usize,
    kname: Bytes,
    inv: u64,
    ret: u64,
    win: Win,
    /// reply if it is the only sub-operation; else None (share of a total)
    reply: Option<Resp>,
    /// index into totals, for commands naming several keys of this component
    total: Option<usize>,
    last: bool,
    /// sub-operations that must precede this one
    pred: Vec<usize>,
    must: bool,
    /// unacknowledged: the server gave up the connection at this event, nothing takes effect later
    gone: u64,
}
pub enum Verdict {
    Ok,
    Inconclusive,
    Bad(String),
}
struct Search<'a> {
    subs: &'a [Sub],
    hist: &'a [OpRec],
    seen: HashSet<u64>,
    budget: u64,
    best: usize,
    best_set: Vec<u64>,
    musts: usize,
}
#[derive(Clone)]
struct St {
    done: Vec<u64>,
    n_must: usize,
    max_inv: u64,
    ks: Vec<KS>,
    /// (total id, sum so far) of commands in progress
    part: Vec<(usize, i64)>,
}
impl St {
    fn has(&self, i: usize) -> bool {
        self.done[i / 64] >> (i % 64) & 1 == 1
    }
}
impl Search<'_> {
    fn key(&self, s: &St) -> u64 {
        let mut h = DefaultHasher::new();
        s.done.hash(&mut h);
        s.ks.hash(&mut h);
        s.part.hash(&mut h);
        h.finish()
    }
    /// Some(true) found, Some(false) impossible, None out of budget
    fn go(&mut self, root: St, totals: &[(usize, Option<i64>)]) -> Option<bool> {
        let mut stack = vec![root];
        while let Some(s) = stack.pop() {
            if s.n_must > self.best {
                self.best = s.n_must;
                self.best_set = s.done.clone();
            }
            if s.n_must == self.musts {
                return Some(true);
            }
            let k = self.key(&s);
            if !self.seen.insert(k) {
                continue;
            }
            if self.budget == 0 {
                return None;
            }
            self.budget -= 1;
            // the earliest return among pending mandatory operations bounds what may go next
            let mut min_ret = u64::MAX;
            for (i, x) in self.subs.iter().enumerate() {
                if x.inv >= min_ret {
                    break;
                }
                if !s.has(i) && x.must {
                    min_ret = min_ret.min(x.ret);
                }
            }
            let mut next = Vec::new();
            for (i, x) in self.subs.iter().enumerate() {
                if x.inv > min_ret {
                    break;
                }
                if !x.must && x.gone < s.max_inv {
                    continue;
                }
                if s.has(i) || x.pred.iter().any(|p| !s.has(*p)) {
                    continue;
                }
                let cmd = &self.hist[x.op].cmd;
                let shares: Vec<(Option<Resp>, i64)> = match (&x.reply, x.total) {
                    (r, None) => vec![(r.clone(), 0)],
                    (_, Some(_)) => vec![(Some(Resp::Int(0)), 0), (Some(Resp::Int(1)), 1)],
                };
                for (r, share) in shares {
                    for k2 in model::step(&s.ks[x.key], cmd, &x.kname, r.as_ref(), x.win) {
                        let mut t = s.clone();
                        t.ks[x.key] = k2;
                        t.done[i / 64] |= 1 << (i % 64);
                        t.max_inv = t.max_inv.max(x.inv);
                        if x.must {
                            t.n_must += 1;
                        }
                        if let Some(id) = x.total {
                            let sum = match t.part.iter().position(|p| p.0 == id) {
                                Some(p) => {
                                    t.part[p].1 += share;
                                    t.part[p].1
                                }
                                None => {
                                    t.part.push((id, share));
                                    t.part.sort_unstable();
                                    share
                                }
                            };
                            if let Some(want) = totals[id].1 {
                                if sum > want {
                                    continue;
                                }
                            }
                            if x.last {
                                if totals[id].1.map_or(false, |want| want != sum) {
                                    continue;
                                }
                                t.part.retain(|p| p.0 != id);
                            }
                        }
                        next.push((x.ret, t));
                    }
                }
            }
            // depth first; try the operation that returned first, first
            next.sort_by(|a, b| b.0.cmp(&a.0));
            stack.extend(next.into_iter().map(|x| x.1));
        }
        Some(false)
    }
}

pub fn window(h: &OpRec) -> Win {
    let end = if h.ret == PENDING { now() } else { h.ret_ns };
    let (lo, hi, jump) = wall_window(h.target, h.inv_ns, end);
    Win { lo, hi, jump: jump.then_some(model::Jump { machine: h.target, inv_ns: h.inv_ns, end_ns: end }) }
}

/// Check every component of the history (operations on machine `target` only); keys starting with `skip`
/// are left to other oracles.
pub fn check(target: u32, from: usize, start: &BTreeMap<Bytes, KS>, skip: &str) -> (Verdict, usize) {
    let (v, n) = check_with(target, from, start, skip, true);
    match v {
        // the bound on unacknowledged requests only guides the search: a refutation must not depend on it
        Verdict::Bad(_) if w().hist.iter().any(|h| h.ret == PENDING && !h.never) => check_with(target, from, start, skip, false),
        v => (v, n),
    }
}
fn check_with(target: u32, from: usize, start: &BTreeMap<Bytes, KS>, skip: &str, bound: bool) -> (Verdict, usize) {
    let gone = |h: &OpRec| -> u64 {
        if !bound {
            return u64::MAX;
        }
        w().conns.get(h.conn).and_then(|c| c.net).map_or(u64::MAX, |n| simrt::net::closed_ev(n, 1))
    };
    let hist = &w().hist;
    // union keys of multi-key commands
    let mut keys: BTreeMap<Bytes, usize> = BTreeMap::new();
    let mut parent: Vec<usize> = Vec::new();
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    let sel: Vec<usize> = (from..hist.len()).filter(|i| hist[*i].target == target && !hist[*i].never && (hist[*i].sent || hist[*i].ret != PENDING)).collect();
    for i in &sel {
        if let Some(ks) = model::keys_of(&hist[*i].cmd) {
            let ids: Vec<usize> = ks
                .iter()
                .map(|k| {
                    *keys.entry(k.clone()).or_insert_with(|| {
                        parent.push(parent.len());
                        parent.len() - 1
                    })
                })
                .collect();
            for p in ids.windows(2) {
                let (a, b) = (find(&mut parent, p[0]), find(&mut parent, p[1]));
                parent[a] = b;
            }
        }
    }
    let mut comps: BTreeMap<usize, Vec<Bytes>> = BTreeMap::new();
    for (k, i) in &keys {
        let r = find(&mut parent, *i);
        comps.entry(r).or_default().push(k.clone());
    }
    // keyless commands: only their own reply matters
    for i in &sel {
        let h = &hist[*i];
        if model::keys_of(&h.cmd).map_or(false, |k| k.is_empty()) {
            if let Some(r) = &h.reply {
                if model::step(&KS::none(), &h.cmd, b"", Some(r), window(h)).is_empty() {
                    return (Verdict::Bad(format!("{} replied {:?}", cmd_str(&h.cmd), r)), 0);
                }
            }
        }
    }
    let mut n = 0;
    let mut inconclusive = false;
    for names in comps.values() {
        let idx: HashMap<&Bytes, usize> = names.iter().enumerate().map(|(i, k)| (k, i)).collect();
        let mut subs: Vec<Sub> = Vec::new();
        let mut totals: Vec<(usize, Option<i64>)> = Vec::new();
        if !skip.is_empty() && names.iter().all(|n| n.starts_with(skip.as_bytes())) {
            continue;
        }
        for i in &sel {
            let h = &hist[*i];
            let must = h.ret != PENDING;
            let gone = gone(h);
            let win = window(h);
            let ret = h.ret;
            let mut add = |key: usize, reply: Option<Resp>, total: Option<usize>, last: bool, pred: Vec<usize>| {
                subs.push(Sub { op: *i, key, kname: names[key].clone(), inv: h.inv, ret, win, reply, total, last, pred, must, gone });
            };
            match model::keys_of(&h.cmd) {
                None => {
                    for k in 0..names.len() {
                        add(k, h.reply.clone(), None, true, vec![]);
                    }
                }
                Some(ks) if ks.len() == 1 => {
                    if let Some(k) = idx.get(&ks[0]) {
                        add(*k, h.reply.clone(), None, true, vec![]);
                    }
                }
                Some(ks) => {
                    if !ks.iter().any(|k| idx.contains_key(k)) {
                        continue;
                    }
                    let total = match &h.reply {
                        None => None,
                        Some(r) => match r.int() {
                            Some(i) => Some(i),
                            None => return (Verdict::Bad(format!("{} replied {:?}", cmd_str(&h.cmd), r)), n),
                        },
                    };
                    totals.push((*i, total));
                    let id = totals.len() - 1;
                    let m = ks.len();
                    for (j, k) in ks.iter().enumerate() {
                        add(idx[k], None, Some(id), j + 1 == m, vec![]);
                    }
                }
            }
        }
        if subs.is_empty() {
            continue;
        }
        // predecessors: previous sub-operations of the same command, previous command of the connection
        let mut last_of: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
        let mut order: Vec<usize> = (0..subs.len()).collect();
        order.sort_by_key(|i| subs[*i].op);
        let mut prev_in_op: HashMap<usize, usize> = HashMap::new();
        for i in order {
            let op = subs[i].op;
            let conn = hist[op].conn;
            let mut pred = Vec::new();
            if subs[i].total.is_some() {
                if let Some(p) = prev_in_op.insert(op, i) {
                    pred.push(p);
                }
            }
            let e = last_of.entry((conn, 0)).or_default();
            let same_op = e.first().map_or(false, |f| subs[*f].op == op);
            if same_op {
                // further sub-operations of the same command share its predecessors
                let f = e[0];
                if subs[i].total.is_none() {
                    pred.extend(subs[f].pred.iter().copied());
                }
                e.push(i);
            } else {
                pred.extend(e.iter().copied());
                *e = vec![i];
            }
            subs[i].pred = pred;
        }
        // sort by invocation, renumbering predecessors
        let mut perm: Vec<usize> = (0..subs.len()).collect();
        perm.sort_by_key(|i| (subs[*i].inv, subs[*i].op, *i));
        let mut inv_perm = vec![0; perm.len()];
        for (new, old) in perm.iter().enumerate() {
            inv_perm[*old] = new;
        }
        let mut sorted: Vec<Option<Sub>> = subs.into_iter().map(Some).collect();
        let subs: Vec<Sub> = perm
            .iter()
            .map(|o| {
                let mut s = sorted[*o].take().unwrap();
                for p in &mut s.pred {
                    *p = inv_perm[*p];
                }
                s
            })
            .collect();
        n += subs.len();
        let musts = subs.iter().filter(|s| s.must).count();
        let root = St {
            done: vec![0; subs.len() / 64 + 1],
            n_must: 0,
            max_inv: 0,
            ks: names.iter().map(|k| start.get(k).cloned().unwrap_or_default()).collect(),
            part: vec![],
        };
        let mut se = Search {
            subs: &subs,
            hist,
            seen: HashSet::new(),
            budget: 30_000,
            best: 0,
            best_set: vec![],
            musts,
        };
        match se.go(root, &totals) {
            Some(true) => {}
            None => inconclusive = true,
            Some(false) => {
                let mut m = format!("no order of the {} commands on {:?} explains the replies; ", subs.len(), names.iter().map(|k| crate::resp::show(k)).collect::<Vec<_>>());
                let stuck: Vec<&Sub> = subs
                    .iter()
                    .enumerate()
                    .filter(|(i, s)| s.must && se.best_set.get(i / 64).map_or(true, |b| b >> (i % 64) & 1 == 0))
                    .map(|x| x.1)
                    .take(4)
                    .collect();
                m.push_str(&format!("{} of {} explained, then: ", se.best, musts));
                for s in stuck {
                    let h = &hist[s.op];
                    m.push_str(&format!("[c{} {}us..{}us {} -> {:?}] ", h.client, h.inv_ns / 1000, h.ret_ns / 1000, cmd_str(&h.cmd), h.reply.as_ref().unwrap()));
                }
                return (Verdict::Bad(m), n);
            }
        }
    }
    (if inconclusive { Verdict::Inconclusive } else { Verdict::Ok }, n)
}

/// For failing histories: the whole per-key history as text.
pub fn dump_history(target: u32) -> Vec<String> {
    w().hist
        .iter()
        .filter(|h| h.target == target)
        .map(|h| {
            format!(
                "c{} conn{} {}us..{} {} -> {}",
                h.client,
                h.conn,
                h.inv_ns / 1000,
                if h.ret == PENDING { "?".into() } else { format!("{}us", h.ret_ns / 1000) },
                cmd_str(&h.cmd),
                h.reply.as_ref().map_or_else(|| format!("({})", h.fail), |r| format!("{r:?}"))
            )
        })
        .collect()
}
pub fn dump_all() -> Vec<String> {
    let mut t: Vec<u32> = w().hist.iter().map(|h| h.target).collect();
    t.sort_unstable();
    t.dedup();
    let mut v = vec![];
    for x in t {
        v.push(format!("---- history of machine {x}"));
        v.extend(dump_history(x));
    }
    v
}
