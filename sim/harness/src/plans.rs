//! Plan generators: property + seed -> plan.
use crate::{cmd, gen::*, plan::*};
use simrt::rng::Rng;

pub fn make(property: &str, seed: u64, tier: &str) -> Plan {
    let mut h = seed;
    for c in property.bytes() {
        h = h.wrapping_mul(0x100_0000_01b3) ^ u64::from(c);
    }
    let mut r = Rng::new(h);
    let deep = tier == "thorough";
    let r = &mut r;
    match property {
        "C01" => c01(property, seed, r, deep),
        "C02" => c02(property, seed, r, deep),
        "C03" => c03(property, seed, r, deep),
        "C04" => c04(property, seed, r, deep),
        "C05" => c05(property, seed, r, deep),
        "C09" => c09(property, seed, r, deep),
        "C10" => c10(property, seed, r, deep),
        "C11" => c11(property, seed, r, deep),
        "C12" => c12(property, seed, r, deep),
        "C13" => c13(property, seed, r, deep),
        "C14" => c14(property, seed, r, deep),
        "C17" => c17(property, seed, r, deep),
        "C15" => c15(property, seed, r, deep),
        "C06" => c06(property, seed, r, deep),
        "C07" => c07(property, seed, r, deep),
        "C08" => c08(property, seed, r, deep),
        "C16" => c16(property, seed, r, deep),
        _ => panic!("no generator for {property}"),
    }
}
fn clients(p: &mut Plan, n: usize, target: u32) {
    for i in 0..n {
        p.clients.push(Client { name: format!("c{i}"), target, start_us: 100_000, steps: vec![], role: String::new() });
    }
}
fn pipe(cmds: Vec<Cmd>) -> Step {
    Step::Pipe { cmds, cuts: vec![], gap_us: 0, read_after_us: 0, read_chunk: 65536, read_gap_us: 0 }
}
fn cuts(r: &mut Rng) -> Vec<u32> {
    if r.chance(1, 3) {
        return vec![];
    }
    let hi = *r.pick(&[2, 5, 40, 400, 3_000]);
    (0..r.range(1, 5)).map(|_| r.range(1, hi) as u32).collect()
}
/// The usual client: commands one by one or in small pipelines, now and then a pause.
fn usual(g: &mut Gen, r: &mut Rng, ops: u64, sleep: (u64, u64), one_in: u64) -> Vec<Step> {
    let mut steps = vec![];
    for _ in 0..ops {
        if r.chance(1, one_in) {
            steps.push(Step::Sleep(r.log_range(sleep.0, sleep.1)));
        }
        if r.chance(1, 10) {
            let n = r.range(2, 5);
            let cmds = (0..n).map(|_| g.cmd()).collect();
            steps.push(if r.chance(1, 6) { Step::Hold { cmds, cuts: vec![], gap_us: 0, hold: r.log_range(1, 40) as u32 } } else { pipe(cmds) });
        } else {
            steps.push(Step::Do(g.cmd()));
        }
    }
    steps
}
fn c01(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "kv", seed, s);
    let mut o = Opts::kv(p.sched.wall_base_ms);
    if r.chance(1, 4) {
        o.ttl = 15;
    }
    if r.chance(1, 4) {
        o.reads = 15;
    }
    if r.chance(1, 3) {
        o.multi = false;
    }
    let nc = r.range(2, if deep { 8 } else { 6 }) as usize;
    let nk = r.range(1, 4) as usize;
    let ops = r.range(5, if deep { 60 } else { 30 });
    let mut g = Gen::new(r.fork(), o, nk);
    let lex = r.chance(1, 8);
    clients(&mut p, nc, 1);
    for i in 0..nc {
        p.clients[i].steps = if lex {
            let key = g.keys[0].0.clone();
            (0..ops).map(|_| Step::Do(g.lex_cmd(&key))).collect()
        } else {
            usual(&mut g, r, ops, (10, 5_000), 15)
        };
    }
    p
}
/// Requests whose connections break at arbitrary points.
fn c02(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "kv", seed, s);
    let mut o = Opts::kv(p.sched.wall_base_ms);
    o.reads = 15;
    o.restore = 0;
    o.object = 0;
    o.multi = r.chance(1, 4);
    o.big = if r.chance(1, 4) { 3 } else { 0 };
    p.set("connect_tries", 5);
    p.set("prefix", 1);
    let nc = r.range(1, if deep { 6 } else { 4 }) as usize;
    let nk = r.range(1, 3) as usize;
    let mut g = Gen::new(r.fork(), o, nk);
    clients(&mut p, nc, 1);
    let mut len = 0;
    for i in 0..nc {
        let mut steps = vec![];
        let mut est = 0;
        for b_no in 0..r.range(2, 7) {
            // tokens tell which requests of a batch took effect
            let n = r.range(1, 14);
            let mut cmds = vec![];
            for j in 0..n {
                if r.chance(2, 3) {
                    let k = r.below(2);
                    let mut c = vec![b("RPUSH"), b(format!("log{k}")), b(format!("T.{i}.{b_no}.{j}"))];
                    if r.chance(1, 12) {
                        c[2] = Arg::B([format!("T.{i}.{b_no}.{j}.").as_bytes(), &filler(r.log_range(100, 9_000) as usize, 7)].concat());
                    }
                    cmds.push(c);
                } else if r.chance(1, 2) {
                    cmds.push(vec![b("INCR"), b("ctr")]);
                } else {
                    cmds.push(g.cmd());
                }
            }
            est += 300 + n * 60;
            let gap = if r.chance(1, 3) { r.log_range(5, 400) } else { 0 };
            match r.below(5) {
                0 => steps.extend(cmds.into_iter().map(Step::Do)),
                1 | 2 => steps.push(Step::Pipe { cmds, cuts: cuts(r), gap_us: gap, read_after_us: if r.chance(1, 3) { r.log_range(10, 2_000) } else { 0 }, read_chunk: 65536, read_gap_us: 0 }),
                _ => {
                    let end = *r.pick(&[How::Fin, How::Rst, How::Half, How::Leak]);
                    steps.push(Step::Burst { cmds, cuts: cuts(r), gap_us: gap, end, after_us: if r.chance(1, 2) { r.log_range(1, 1_500) } else { 0 } });
                }
            }
            if r.chance(1, 4) {
                steps.push(Step::Close(*r.pick(&[How::Fin, How::Rst, How::Half])));
            }
            if r.chance(1, 3) {
                steps.push(Step::Sleep(r.log_range(10, 3_000)));
            }
        }
        p.clients[i].steps = steps;
        len = len.max(est);
    }
    for _ in 0..r.range(0, 2 * nc as u64 + 2) {
        let client = r.below(nc as u64) as u32;
        let at_us = 100_000 + r.below(len.max(10));
        let kind = if r.chance(1, 3) {
            FaultKind::Reset { client }
        } else {
            FaultKind::Cut { client, side: r.below(2) as u8, bytes: r.log_range(1, 3_000) }
        };
        p.faults.push(Fault { at_us, kind });
    }
    p
}
/// Deep pipelines, odd packets, slow readers, large and binary data; every client has its own keys.
fn c03(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "kv", seed, s);
    p.set("alone", 1);
    let nc = r.range(1, 4) as usize;
    clients(&mut p, nc, 1);
    let tiny = p.sched.mss < 100;
    for i in 0..nc {
        let mut o = Opts::kv(p.sched.wall_base_ms);
        o.restore = 0;
        o.object = 0;
        o.multi = true;
        o.big = if tiny { 0 } else { 2 };
        o.wrong = 8;
        let nk = r.range(1, 4) as usize;
        let mut g = Gen::new(r.fork(), o, nk);
        for k in &mut g.keys {
            k.0 = [format!("c{i}:").as_bytes(), &k.0].concat();
        }
        if r.chance(1, 4) {
            g.keys[0].0.extend(filler(r.log_range(1, 400) as usize, 3));
        }
        let mut steps = vec![];
        for _ in 0..r.range(1, if deep { 8 } else { 4 }) {
            let n = if r.chance(1, 6) { r.range(40, 200) } else { r.range(1, 20) };
            let mut cmds: Vec<Cmd> = (0..n).map(|_| g.cmd()).collect();
            if r.chance(1, 4) {
                let j = r.usize(cmds.len() + 1);
                cmds.insert(j, vec![b("PING")]);
            }
            if !tiny && r.chance(1, if deep { 4 } else { 12 }) {
                let size = r.log_range(60_000, if deep { 4_000_000 } else { 800_000 }) as usize;
                let j = r.usize(cmds.len() + 1);
                let key = b(format!("c{i}:big"));
                let c = if r.chance(1, 2) { vec![b("SET"), key.clone(), Arg::B(filler(size, 9))] } else { vec![b("HSET"), b(format!("c{i}:bigh")), b("f"), Arg::B(filler(size, 9))] };
                cmds.insert(j, c);
                cmds.insert(j + 1, vec![b("GET"), key]);
                cmds.push(vec![b("HGETALL"), b(format!("c{i}:bigh"))]);
            }
            if r.chance(1, 6) {
                steps.extend(cmds.into_iter().map(Step::Do));
            } else if r.chance(1, 5) {
                let bytes: usize = cmds.iter().flatten().map(|a| a.bytes().len() + 8).sum();
                let mut cs = cuts(r);
                cs.iter_mut().for_each(|c| *c = (*c).max(bytes as u32 / 400));
                steps.push(Step::Hold { cmds, cuts: cs, gap_us: if r.chance(1, 2) { r.log_range(1, 2_000) } else { 0 }, hold: r.log_range(1, 100) as u32 });
            } else {
                let slow = r.chance(1, 3);
                let bytes: usize = cmds.iter().flatten().map(|a| a.bytes().len() + 8).sum();
                // keep the number of packets bounded
                let mut cs = cuts(r);
                if bytes > 20_000 {
                    cs.iter_mut().for_each(|c| *c = (*c).max(bytes as u32 / 400));
                }
                steps.push(Step::Pipe {
                    cmds,
                    cuts: cs,
                    gap_us: if r.chance(1, 2) { r.log_range(1, 2_000) } else { 0 },
                    read_after_us: if slow { r.log_range(10, 200_000) } else { 0 },
                    read_chunk: if slow { (r.log_range(64, 65_536) as u32).max(bytes as u32 / 200) } else { 65_536 },
                    read_gap_us: if slow { r.log_range(1, 3_000) } else { 0 },
                });
            }
            if r.chance(1, 4) {
                steps.push(Step::Sleep(r.log_range(10, 20_000)));
            }
        }
        p.clients[i].steps = steps;
    }
    p
}
/// Expiries.
fn c06(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "kv", seed, s);
    let mut o = Opts::kv(p.sched.wall_base_ms + 100);
    o.ttl = *r.pick(&[40, 60, 80]);
    let hi = *r.pick(&[20, 200, 1_500, 5_000]);
    o.ttl_ms = (1, hi);
    o.del = 6;
    o.wrong = 2;
    o.multi = r.chance(1, 4);
    o.object = 1;
    o.restore = 5;
    let nc = r.range(1, 4) as usize;
    let nk = r.range(1, 3) as usize;
    let ops = r.range(5, if deep { 50 } else { 25 });
    let mut g = Gen::new(r.fork(), o, nk);
    clients(&mut p, nc, 1);
    for i in 0..nc {
        p.clients[i].steps = usual(&mut g, r, ops, (10, hi * 1_000), 4);
    }
    if r.chance(1, 4) {
        p.faults.push(Fault { at_us: 100_000 + r.below(hi * 1000), kind: FaultKind::Stall { node: 1, us: r.log_range(1_000, hi * 1_000) } });
    }
    p
}
/// Reclamation: lots of data with expiries, measured afterwards.
fn c07(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    if r.chance(1, 3) {
        return c07_copies(prop, seed, r, deep);
    }
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "reclaim", seed, s);
    p.sched.mss = p.sched.mss.max(536);
    p.sched.sock_cap = p.sched.sock_cap.max(8_192);
    p.sched.preempt_ppm = p.sched.preempt_ppm.min(50_000);
    p.set("keys", r.range(2, 40) as i64);
    p.set("rounds", r.range(1, if deep { 12 } else { 5 }) as i64);
    p.set("value", r.log_range(12_000, 40_000) as i64);
    p.set("churn", if r.chance(1, 3) { r.log_range(200, 3_000) as i64 } else { 0 });
    if p.get("churn") > 0 && r.chance(1, 3) {
        p.set("churn_flush", r.range(1, 3) as i64);
        p.set("churn", r.range(400, 1_000) as i64);
    }
    p.set("copy", if r.chance(1, 4) { r.range(1, 2) as i64 } else { 0 });
    p.set("ttl_max_ms", r.log_range(20, 20_000) as i64);
    p.set("mode", r.below(64) as i64);
    p.set("nclients", r.range(1, 4) as i64);
    p
}
/// The same for what a follower received, in a snapshot or since.
fn c07_copies(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "cluster", seed, s);
    let x = Repl {
        followers: r.range(1, 2) as u32,
        writers: r.range(1, 2) as usize,
        readers: 0,
        ops: r.range(3, if deep { 80 } else { 30 }),
        span_us: r.log_range(20_000, 3_000_000),
        ttl: false,
        flush: false,
        big: 0,
    };
    repl(&mut p, r, &x);
    joins(&mut p, r, &x);
    let (lo, hi) = *r.pick(&[(200, 3_000), (200, 20_000), (2_000, 12_000)]);
    let wall = p.sched.wall_base_ms;
    for i in 0..x.writers {
        let nk = r.range(1, 30);
        let n = r.range(2, if deep { 60 } else { 30 });
        let mut st = vec![];
        for _ in 0..n {
            if r.chance(1, 2) {
                st.push(Step::Sleep(r.below(2 * x.span_us / n)));
            }
            let j = r.below(nk);
            let k = b(&if j == 3 { format!("{{{}}}e{i}", crate::wire::EDGES[1]) } else { format!("e{i}:{j}") });
            let ms = r.log_range(lo, hi).to_string();
            st.push(Step::Do(match r.below(8) {
                0 => vec![b("SET"), k, b("1")],
                1 => vec![b("DEL"), k],
                2 => vec![b("PSETEX"), k, b(&ms), b("2")],
                3 => vec![b("SETEX"), k, b(&r.range(1, 15).to_string()), b("3")],
                4 => vec![b("SET"), k, b("4"), b("PXAT"), b(&(wall + 100 + r.below(x.span_us / 1_000) + r.log_range(lo, hi)).to_string())],
                _ => vec![b("SET"), k, b("5"), b("PX"), b(&ms)],
            }));
        }
        // in between what the writer does anyway
        for t in st {
            let j = r.usize(p.clients[i].steps.len() + 1);
            p.clients[i].steps.insert(j, t);
        }
    }
    p.set("settle_ms", r.range(3_000, 16_000) as i64);
    p.set("fresh_ms", 500);
    p
}
fn c08(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    if r.chance(1, 10) {
        return contended(prop, seed, r, deep);
    }
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "kv", seed, s);
    let mut o = Opts::kv(p.sched.wall_base_ms + 100);
    o.ttl = *r.pick(&[0, 20, 50]);
    let hi = *r.pick(&[20, 200, 2_000]);
    o.ttl_ms = (1, hi);
    o.multi = false;
    o.big = if r.chance(1, 3) { 4 } else { 0 };
    let nc = r.range(1, 5) as usize;
    let nk = r.range(1, 5) as usize;
    let ops = r.range(4, if deep { 40 } else { 20 });
    let mut g = Gen::new(r.fork(), o, nk);
    clients(&mut p, nc, 1);
    for i in 0..nc {
        let mut st = usual(&mut g, r, ops, (10, hi * 1_000), 8);
        for _ in 0..r.range(0, 2) {
            let j = r.usize(st.len() + 1);
            st.insert(j, Step::Do(flushall(r)));
        }
        p.clients[i].steps = st;
    }
    if r.chance(1, 3) {
        p.set("flush_mem", 1);
    }
    p
}
fn flushall(r: &mut Rng) -> Cmd {
    match r.below(3) {
        0 => vec![b("FLUSHALL")],
        1 => vec![b("FLUSHALL"), b("SYNC")],
        _ => vec![b("FLUSHALL"), b("ASYNC")],
    }
}
/// Hostile clients next to well-behaved ones.
fn c04(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "kv", seed, s);
    let mut o = Opts::kv(p.sched.wall_base_ms);
    o.big = if p.sched.mss < 100 { 0 } else { 1 };
    p.sched.mss = p.sched.mss.max(17);
    let nv = r.range(1, 3) as usize;
    let nh = r.range(1, if deep { 8 } else { 5 }) as usize;
    let ops = r.range(5, if deep { 40 } else { 20 });
    let nk = r.range(1, 4) as usize;
    let mut g = Gen::new(r.fork(), o, nk);
    for k in &mut g.keys {
        k.0 = [&b"victim:"[..], &k.0].concat();
    }
    clients(&mut p, nv + nh, 1);
    for i in 0..nv {
        p.clients[i].steps = usual(&mut g, r, ops, (10, 3_000), 6);
    }
    for i in nv..nv + nh {
        p.clients[i].role = "hostile".into();
        let mut st = vec![];
        for _ in 0..r.range(1, 6) {
            let n = r.range(1, 3);
            // on a connection of its own: part of a request of a victim, or one that has to be refused
            match r.below(6) {
                0 => {
                    let mut bytes = vec![];
                    let c = g.cmd();
                    bytes.extend(crate::hostile::truncated(r, &crate::resp::encode(&c)));
                    if bytes.len() < 1_000 || p.sched.mss > 100 {
                        st.push(Step::Raw { bytes: Raw(bytes), wait_us: if r.chance(1, 2) { r.log_range(10, 5_000) } else { 0 } });
                    }
                    st.push(Step::Close(*r.pick(&[How::Fin, How::Fin, How::Rst, How::Half, How::Leak])));
                    continue;
                }
                1 => {
                    for _ in 0..r.range(1, 4) {
                        let k = r.pick(&g.keys).0.clone();
                        st.push(Step::Raw { bytes: Raw(crate::hostile::refused(r, &k)), wait_us: r.log_range(10, 5_000) });
                    }
                    st.push(Step::Close(*r.pick(&[How::Fin, How::Half])));
                    continue;
                }
                _ => {}
            }
            for _ in 0..n {
                let (bytes, wait) = if r.chance(1, 10) && p.sched.mss > 100 { (crate::hostile::flood(r), 0) } else { (crate::hostile::bytes(r), if r.chance(1, 2) { r.log_range(10, 5_000) } else { 0 }) };
                if r.chance(1, 6) && bytes.len() < 400 {
                    // drop by drop
                    let c = r.range(1, 7) as usize;
                    for x in bytes.chunks(c) {
                        st.push(Step::Raw { bytes: Raw(x.to_vec()), wait_us: 0 });
                        st.push(Step::Sleep(r.log_range(1, 500)));
                    }
                } else {
                    st.push(Step::Raw { bytes: Raw(bytes), wait_us: wait });
                }
            }
            if r.chance(1, 2) {
                st.push(Step::Sleep(r.log_range(1, 5_000)));
            }
            st.push(Step::Close(*r.pick(&[How::Fin, How::Fin, How::Rst, How::Half, How::Leak])));
        }
        p.clients[i].steps = st;
    }
    if r.chance(1, 3) {
        // every hostile connection must give back its place (those that stay silent keep theirs)
        let leaks = p.clients.iter().flat_map(|c| &c.steps).filter(|s| **s == Step::Close(How::Leak)).count();
        p.set("max_connections", (nv + nh + leaks + 2) as i64);
    }
    p
}
/// More clients than the limit allows, ending in every way.
fn c05(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "limit", seed, s);
    p.sched.mss = p.sched.mss.max(17);
    let l = r.range(1, 5) as usize;
    p.set("max_connections", l as i64);
    p.set("op_timeout_ms", 400_000);
    p.set("limit_s", 4_000);
    let nc = r.range(1, (if deep { 5 } else { 3 }) * l as u64 + 1) as usize;
    let mut o = Opts::kv(p.sched.wall_base_ms);
    o.big = 0;
    let mut g = Gen::new(r.fork(), o, 3);
    clients(&mut p, nc, 1);
    let mut leaks = r.below(l as u64);
    for i in 0..nc {
        p.clients[i].start_us += r.below(3_000);
        let mut st = vec![];
        for _ in 0..r.range(1, 5) {
            if r.chance(1, 6) {
                st.push(Step::Open);
                st.push(Step::Sleep(r.log_range(10, 5_000)));
            }
            for _ in 0..r.range(0, 4) {
                st.push(Step::Do(g.cmd()));
                if r.chance(1, 3) {
                    st.push(Step::Sleep(r.log_range(10, 20_000)));
                }
            }
            match r.below(9) {
                0 => st.push(Step::Close(How::Rst)),
                1 => st.push(Step::Close(How::Half)),
                2 => {
                    // misbehave until the server closes
                    st.push(Step::Raw { bytes: Raw(crate::hostile::bytes(r)), wait_us: r.log_range(10, 2_000) });
                    st.push(Step::Close(*r.pick(&[How::Fin, How::Rst, How::Half])));
                }
                3 if leaks > 0 => {
                    leaks -= 1;
                    st.push(Step::Close(How::Leak));
                }
                4 => {
                    let n = r.range(1, 6);
                    st.push(Step::Burst { cmds: (0..n).map(|_| g.cmd()).collect(), cuts: cuts(r), gap_us: 0, end: *r.pick(&[How::Fin, How::Rst, How::Half]), after_us: if r.chance(1, 2) { r.log_range(1, 1_000) } else { 0 } });
                }
                5 => st.push(Step::Raw { bytes: Raw(crate::resp::encode(&vec![b("SYNCSNAPSHOT"), b(r.pick(&["7", "16385", "x"]))])), wait_us: r.log_range(10, 3_000) }),
                _ => st.push(Step::Close(How::Fin)),
            }
        }
        p.clients[i].steps = st;
    }
    for _ in 0..r.below(nc as u64 + 1) {
        let client = r.below(nc as u64) as u32;
        let at_us = 100_000 + r.below(30_000);
        let kind = if r.chance(1, 2) { FaultKind::Reset { client } } else { FaultKind::Cut { client, side: r.below(2) as u8, bytes: r.log_range(1, 500) } };
        p.faults.push(Fault { at_us, kind });
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let errno = *r.pick(&[24, 23, 103, 105, 12, 71]);
            p.faults.push(Fault { at_us: 100_000 + r.below(20_000), kind: FaultKind::AcceptErr { node: 1, port: crate::world::PORT, n: r.range(1, 3) as u32, errno } });
        }
    }
    p
}
/// Snapshots while every client writes its own keys.
fn c09(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "snap", seed, s);
    p.sched.mss = p.sched.mss.max(536);
    p.set("op_timeout_ms", 60_000);
    let nw = r.range(1, 4) as usize;
    let ns = r.range(1, 3) as usize;
    clients(&mut p, nw + ns, 1);
    let tag = if r.chance(1, 2) { *r.pick(&crate::wire::EDGES) } else { *r.pick(&["t", "u", "x1"]) };
    let slot = crate::wire::slot_of(format!("{{{tag}}}").as_bytes()) as i64;
    let ttl = *r.pick(&[0, 0, 15, 40]);
    let mut span = 0;
    for i in 0..nw {
        let mut o = Opts::kv(p.sched.wall_base_ms + 100);
        o.reads = 5;
        o.wrong = 2;
        o.del = 10;
        o.ttl = ttl;
        o.ttl_ms = (1, 400);
        o.restore = 3;
        o.object = 0;
        o.multi = false;
        o.big = if r.chance(1, 4) { 3 } else { 0 };
        let nk = r.range(1, 4) as usize;
        let mut g = Gen::new(r.fork(), o, nk);
        for (j, k) in g.keys.iter_mut().enumerate() {
            k.0 = match r.below(8) {
                0 => format!("{{{}}}w{i}:{j}", r.pick(&crate::wire::EDGES)),
                1..=4 => format!("{{{tag}}}w{i}:{j}"),
                _ => format!("w{i}:{j}"),
            }
            .into_bytes();
        }
        let ops = r.range(5, if deep { 80 } else { 40 });
        p.clients[i].steps = usual(&mut g, r, ops, (10, 2_000), 10);
        span = span.max(ops * 250);
    }
    for i in nw..nw + ns {
        let mut st = vec![];
        for _ in 0..r.range(1, 3) {
            st.push(Step::Sleep(r.below(span.max(1)) / 2));
            let sl = match r.below(10) {
                0 => *r.pick(&[-1, 16_385, 70_000]),
                1..=4 => snap_slot_all(),
                5 => r.below(16_384) as i64,
                _ => slot,
            };
            let slow = r.chance(1, 3);
            let chunk = if slow { r.log_range(5_000, 65_536) } else { 65_536 } as i64;
            let gap = if slow { r.log_range(10, 5_000) } else { 0 } as i64;
            let give = if r.chance(1, 5) { r.log_range(1, 200_000) } else { 0 } as i64;
            let later = if r.chance(1, 4) { r.log_range(10, 300_000) } else { 0 } as i64;
            st.push(Step::Special("snap".into(), vec![sl, chunk, gap, give, later, r.below(2) as i64]));
        }
        p.clients[i].steps = st;
    }
    if r.chance(1, 5) {
        let client = (nw as u64 + r.below(ns as u64)) as u32;
        p.faults.push(Fault { at_us: 100_000 + r.below(span.max(1)), kind: if r.chance(1, 2) { FaultKind::Reset { client } } else { FaultKind::Cut { client, side: 0, bytes: r.log_range(1, 200_000) } } });
    }
    if r.chance(1, 8) {
        p.faults.push(Fault { at_us: 100_000 + r.below(span.max(1)), kind: FaultKind::ForkErr { node: 1, n: r.range(1, 2) as u32, errno: *r.pick(&[11, 12]) } });
    }
    if r.chance(1, 6) {
        // the whole database changes under the snapshots: only completeness is judged
        p.set("no_point", 1);
        let j = r.usize(p.clients[0].steps.len() + 1);
        p.clients[0].steps.insert(j, Step::Do(flushall(r)));
    }
    p
}
const fn snap_slot_all() -> i64 {
    16_384
}
/// Writers on the leader (every slot has one writer) and readers on the followers.
struct Repl {
    followers: u32,
    writers: usize,
    readers: usize,
    ops: u64,
    span_us: u64,
    ttl: bool,
    flush: bool,
    big: u64,
}
fn repl(p: &mut Plan, r: &mut Rng, x: &Repl) {
    p.sched.mss = p.sched.mss.max(536);
    p.sched.sock_cap = p.sched.sock_cap.max(8_192);
    // a snapshot takes some 70 000 steps on the receiving side: stalls may
    // add half a second to it on average, no more
    let ppm = u64::from(p.sched.stall_ppm.max(1));
    p.sched.stall_max_us = p.sched.stall_max_us.min(5_000).min((10_000_000 / ppm) as _);
    p.sched.step_cost_ns = p.sched.step_cost_ns.min(1_000);
    p.sched.max_steps = 12_000_000;
    p.set("servers", i64::from(x.followers) + 1);
    clients(p, x.writers + x.readers, 1);
    let mut all: Vec<(Vec<u8>, K)> = vec![];
    for i in 0..x.writers {
        let mut o = Opts::kv(p.sched.wall_base_ms + 100);
        o.reads = 10;
        o.del = 8;
        o.wrong = 4;
        o.object = 1;
        o.restore = 6;
        o.multi = false;
        o.big = x.big;
        // expiries that stay far away
        o.ttl = if x.ttl { 12 } else { 0 };
        o.ttl_ms = (50_000_000, 90_000_000);
        let nk = r.range(1, 5) as usize;
        let mut g = Gen::new(r.fork(), o, nk);
        for (j, k) in g.keys.iter_mut().enumerate() {
            k.0 = match r.below(4) {
                3 => format!("{{{}}}w{i}:{j}", r.pick(&crate::wire::EDGES)),
                0 => format!("w{i}:{j}"),
                1 => format!("{{w{i}}}:{j}"),
                _ => format!("{{w{i}x}}:{j}"),
            }
            .into_bytes();
            if x.ttl && r.chance(1, 4) {
                g.ttl_keys.insert(k.0.clone());
            }
        }
        all.extend(g.keys.iter().cloned());
        let gap = (x.span_us / x.ops.max(1)).max(10);
        let mut st = vec![];
        for _ in 0..x.ops {
            if r.chance(2, 3) {
                st.push(Step::Sleep(r.below(2 * gap)));
            }
            if r.chance(1, 6) {
                let n = r.range(2, 12);
                st.push(pipe((0..n).map(|_| g.cmd()).collect()));
            } else if r.chance(1, 8) {
                // a slot that is written this once
                st.push(Step::Do(vec![b("SET"), b(&if r.chance(1, 8) { format!("{{{}}}once{i}:{}", r.pick(&crate::wire::EDGES), st.len()) } else { format!("once{i}:{}", st.len()) }), b("1")]));
            } else if r.chance(1, 12) {
                st.push(Step::Do(g.lex_cmd(format!("lex{i}").as_bytes())));
            } else {
                st.push(Step::Do(g.cmd()));
            }
        }
        if x.flush {
            for _ in 0..r.range(1, 2) {
                let j = r.usize(st.len() + 1);
                st.insert(j, Step::Do(flushall(r)));
            }
        }
        p.clients[i].steps = st;
    }
    for i in x.writers..x.writers + x.readers {
        let f = 2 + ((i - x.writers) as u32 % x.followers);
        p.clients[i].target = f;
        let mut g = Gen::new(r.fork(), Opts::kv(p.sched.wall_base_ms), 1);
        let n = x.ops * 2;
        let gap = (x.span_us * 5 / 4 / n.max(1)).max(10);
        let mut st = vec![];
        for _ in 0..n {
            st.push(Step::Sleep(r.below(2 * gap)));
            let (k, kind) = r.pick(&all).clone();
            st.push(Step::Do(match r.below(8) {
                0 | 1 => vec![b("DUMP"), b(&k)],
                2 => vec![b("PTTL"), b(&k)],
                _ => g.read_cmd(&k, kind),
            }));
        }
        p.clients[i].steps = st;
    }
}
fn joins(p: &mut Plan, r: &mut Rng, x: &Repl) {
    for f in 2..2 + x.followers {
        let at = if r.chance(1, 4) { 100_000 } else { 100_000 + r.below(x.span_us) };
        p.faults.push(Fault { at_us: at, kind: FaultKind::Restart { node: f } });
    }
}
fn c10(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "cluster", seed, s);
    let flush = r.chance(1, 4);
    let x = Repl {
        followers: r.range(1, if deep { 3 } else { 2 }) as u32,
        writers: if flush { 1 } else { r.range(1, 3) as usize },
        readers: r.below(2) as usize,
        ops: r.range(5, if deep { 150 } else { 60 }),
        span_us: r.log_range(20_000, 3_000_000),
        ttl: r.chance(1, 2),
        flush,
        big: if r.chance(1, 4) { 3 } else { 0 },
    };
    repl(&mut p, r, &x);
    joins(&mut p, r, &x);
    p.set("settle_ms", 6_000);
    p.set("fresh_ms", 500);
    if r.chance(1, 3) {
        // broken streams, which have to be resumed
        p.set("settle_ms", 12_000);
        p.set("fresh_ms", 1_000);
        p.set("faulty", 1);
        links(&mut p, r, &x, 2);
    } else if r.chance(1, 5) {
        p.faults.push(Fault { at_us: 50_000, kind: FaultKind::Slow { a: 1, b: 2, us: r.log_range(1_000, 100_000) } });
    }
    p
}
fn c11(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "cluster", seed, s);
    let flush = r.chance(1, 6);
    let x = Repl {
        followers: r.range(1, 2) as u32,
        writers: if flush { 1 } else { r.range(1, 3) as usize },
        readers: r.range(1, 3) as usize,
        ops: r.range(20, if deep { 200 } else { 80 }),
        span_us: r.log_range(20_000, 6_000_000),
        ttl: r.chance(1, 3),
        flush,
        big: 0,
    };
    repl(&mut p, r, &x);
    joins(&mut p, r, &x);
    p.set("settle_ms", 12_000);
    p.set("fresh_ms", 1_000);
    p.set("faulty", 1);
    links(&mut p, r, &x, 2);
    p
}
/// Breaks between leader and followers; no leader change.
fn links(p: &mut Plan, r: &mut Rng, x: &Repl, max: u64) {
    let pf = |r: &mut Rng| 2 + r.below(u64::from(x.followers)) as u32;
    for _ in 0..r.range(0, max) {
        let at_us = 100_000 + r.below(x.span_us * 5 / 4);
        let f = pf(r);
        let kind = match r.below(12) {
            0 | 1 => FaultKind::ResetLink { a: 1, b: f },
            2 | 3 => FaultKind::CutLink { a: 1, b: f, side: r.below(2) as u8, bytes: r.log_range(1, 400_000) },
            4 => {
                p.faults.push(Fault { at_us: at_us + r.log_range(10_000, 15_000_000), kind: FaultKind::Heal });
                FaultKind::Partition { a: 1, b: f, both: true }
            }
            5 => {
                p.faults.push(Fault { at_us: at_us + r.log_range(10_000, 15_000_000), kind: FaultKind::Heal });
                if r.chance(1, 2) {
                    FaultKind::Partition { a: 1, b: f, both: false }
                } else {
                    FaultKind::Partition { a: f, b: 1, both: false }
                }
            }
            6 => {
                p.faults.push(Fault { at_us: at_us + r.log_range(1_000, 5_000_000), kind: FaultKind::Restart { node: f } });
                FaultKind::Crash { node: f, silent: r.chance(1, 3) }
            }
            7 => FaultKind::Stall { node: if r.chance(1, 2) { f } else { 1 }, us: r.log_range(1_000, 1_500_000) },
            8 => FaultKind::ForkErr { node: 1, n: r.range(1, 3) as u32, errno: *r.pick(&[11, 12]) },
            9 => FaultKind::AcceptErr { node: 1, port: *r.pick(&[crate::world::PORT, crate::world::FWD_PORT]), n: 1, errno: *r.pick(&[24, 103]) },
            10 => FaultKind::ConnectErr { node: f, port: *r.pick(&[crate::world::PORT, crate::world::FWD_PORT]), n: r.range(1, 2) as u32, errno: *r.pick(&[111, 113, 110, 99]) },
            _ => FaultKind::ResetLink { a: if r.chance(1, 2) { 1 } else { f }, b: crate::world::PD },
        };
        p.faults.push(Fault { at_us, kind });
    }
}
fn c12(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "cluster", seed, s);
    let flush = r.chance(1, 8);
    let x = Repl {
        followers: r.range(1, 2) as u32,
        writers: if flush { 1 } else { r.range(1, 2) as usize },
        readers: r.below(2) as usize,
        ops: r.range(10, if deep { 120 } else { 60 }),
        span_us: r.log_range(50_000, 8_000_000),
        ttl: r.chance(1, 3),
        flush,
        big: if r.chance(1, 5) { 3 } else { 0 },
    };
    repl(&mut p, r, &x);
    joins(&mut p, r, &x);
    p.set("settle_ms", 12_000);
    p.set("fresh_ms", 1_000);
    p.set("faulty", 1);
    links(&mut p, r, &x, if deep { 6 } else { 4 });
    p
}
fn sp(k: &str, a: &[i64]) -> Step {
    Step::Special(k.into(), a.to_vec())
}
/// Scripted members of the placement driver.
fn members(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let mut s = Sched::random(r);
    s.stall_max_us = s.stall_max_us.min(5_000);
    s.step_cost_ns = s.step_cost_ns.min(2_000);
    let mut p = Plan::new(prop, "members", seed, s);
    let groups = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
    p.set("groups", groups as i64);
    let n = r.range(1, if deep { 8 } else { 6 }) as usize;
    let hostile = if r.chance(1, 4) { r.range(1, 2) as usize } else { 0 };
    clients(&mut p, n + hostile, 1);
    let odd = |r: &mut Rng| if r.chance(1, 8) { [r.range(1, 60), r.log_range(10, 2_500_000)] } else { [0, 0] };
    for i in 0..n {
        let calm = r.chance(1, 3);
        let mut st = vec![];
        let group = 1 + r.below(groups) as i64;
        let join = |r: &mut Rng, st: &mut Vec<Step>| {
            if r.chance(1, 10) {
                st.push(sp("join", &[group, r.log_range(1, 100_000) as i64, 0, 0]));
            }
            if r.chance(1, 15) {
                st.push(sp("join", &[groups as i64 + r.range(1, 5) as i64, 0, 0, 0]));
            }
            let o = odd(r);
            st.push(sp("join", &[group, 0, o[0] as i64, o[1] as i64]));
        };
        join(r, &mut st);
        let phases = if calm { 1 } else { r.range(1, if deep { 8 } else { 5 }) };
        for j in 0..phases {
            let period = if r.chance(2, 3) { 1_000_000 } else { *r.pick(&[200_000, 500_000, 1_500_000, 2_500_000, 2_800_000, 2_950_000]) };
            let n = if calm { r.range(15, 40) } else { r.range(1, 15) };
            let lie = if r.chance(1, 8) { r.range(1, 4) } else { 0 };
            let o = odd(r);
            st.push(sp("beats", &[n as i64, period, lie as i64, o[0] as i64, o[1] as i64, if r.chance(1, 8) { r.range(2, 3) as i64 } else { 1 }]));
            if r.chance(1, 12) {
                st.push(sp("ghost", &[r.range(1, groups + 1) as i64, 1_000 + r.below(1_000_000) as i64]));
            }
            if j + 1 < phases {
                match r.below(7) {
                    0 => st.push(Step::Sleep(r.below(2_900_000))),
                    1 => st.push(Step::Sleep(2_900_000 + r.below(200_000))),
                    2 | 3 => st.push(Step::Sleep(3_000_000 + r.below(6_000_000))),
                    4 => {
                        st.push(Step::Close(*r.pick(&[How::Fin, How::Rst, How::Leak])));
                        st.push(Step::Sleep(r.below(8_000_000)));
                        join(r, &mut st);
                    }
                    5 => {
                        st.push(Step::Close(*r.pick(&[How::Fin, How::Rst])));
                        st.push(Step::Sleep(r.below(4_000_000)));
                    }
                    _ => {
                        st.push(sp("lose", &[r.log_range(1, 500_000) as i64, if r.chance(1, 2) { r.range(1, 50) as i64 } else { 0 }]));
                        st.push(Step::Sleep(r.below(4_000_000)));
                    }
                }
            }
        }
        p.clients[i].steps = st;
        p.clients[i].start_us = if r.chance(1, 3) { r.below(2_000) } else { r.below(8_000_000) };
    }
    for i in n..n + hostile {
        let mut st = vec![];
        for _ in 0..r.range(1, 8) {
            st.push(Step::Sleep(r.log_range(1_000, 4_000_000)));
            st.push(Step::Raw { bytes: Raw(crate::hostile::pd_bytes(r, groups)), wait_us: r.log_range(10, 100_000) });
        }
        p.clients[i].steps = st;
        p.clients[i].role = "hostile".into();
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let at_us = r.below(20_000_000);
            let m = crate::members::M0 + r.below(n as u64) as u32;
            let pd = crate::world::PD;
            match r.below(6) {
                0 | 1 => p.faults.push(Fault { at_us, kind: FaultKind::Stall { node: pd, us: r.log_range(1_000, 2_000_000) } }),
                2 => {
                    let amount = r.log_range(10, 2_000_000_000_000) as i64;
                    p.faults.push(Fault { at_us, kind: FaultKind::ClockStep { node: pd, ms: if r.chance(1, 2) { -amount } else { amount } } });
                }
                3 | 4 => {
                    p.set("disturbed", 1);
                    let (a, b) = if r.chance(1, 2) { (m, pd) } else { (pd, m) };
                    p.faults.push(Fault { at_us, kind: FaultKind::Partition { a, b, both: r.chance(1, 2) } });
                    p.faults.push(Fault { at_us: at_us + r.log_range(100_000, 12_000_000), kind: FaultKind::Heal });
                }
                _ => {
                    p.set("disturbed", 1);
                    p.faults.push(Fault { at_us, kind: FaultKind::AcceptErr { node: pd, port: crate::world::PD_PORT, n: r.range(1, 2) as u32, errno: *r.pick(&[24, 23, 103]) } });
                }
            }
        }
    }
    p
}
fn c13(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    members(prop, seed, r, deep)
}
/// Real servers: the leader fails, somebody takes over, the old leader comes back.
fn failover(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let s = Sched::random(r);
    let mut p = Plan::new(prop, "cluster", seed, s);
    let x = Repl {
        followers: r.range(1, if deep { 4 } else { 3 }) as u32,
        writers: r.range(1, 2) as usize,
        readers: 0,
        ops: r.range(5, 50),
        span_us: r.log_range(100_000, 8_000_000),
        ttl: r.chance(1, 3),
        flush: false,
        big: if r.chance(1, 6) { 3 } else { 0 },
    };
    repl(&mut p, r, &x);
    let early = r.log_range(200_000, 3_000_000);
    for f in 2..2 + x.followers {
        p.faults.push(Fault { at_us: 100_000 + r.below(early), kind: FaultKind::Restart { node: f } });
    }
    // snapshots take a while
    let at_us = 100_000 + early + 3_000_000 + r.below(x.span_us);
    let pd = crate::world::PD;
    let back = at_us + if r.chance(1, 3) { r.log_range(10_000_000, 40_000_000) } else { 10_500_000 };
    p.set("failover", 1);
    p.set("settle_ms", 14_000);
    p.set("fresh_ms", 1_000);
    p.set("faulty", 1);
    p.set("mid_at_us", (at_us + 8_000_000) as i64);
    match r.below(8) {
        0..=2 => {
            p.faults.push(Fault { at_us, kind: FaultKind::Crash { node: 1, silent: r.chance(1, 2) } });
            p.faults.push(Fault { at_us: back, kind: FaultKind::Restart { node: 1 } });
            p.set("stop_us", at_us as i64);
            if r.chance(1, 2) {
                p.set("stop_us", at_us as i64 - 2_000_000);
                p.set("keep_at_us", at_us as i64 - 1_000_000);
            }
            if r.chance(1, 3) {
                p.set("again_us", r.log_range(3_000_000, 12_000_000) as i64);
                p.set("away_us", r.log_range(1_000, 8_000_000) as i64);
                p.set("agains", r.range(1, 2) as i64);
            }
        }
        3 | 4 => {
            p.faults.push(Fault { at_us, kind: FaultKind::Stall { node: 1, us: back - at_us } });
            p.set("stop_us", at_us as i64 - 200_000);
        }
        5 | 6 => {
            p.set("stop_us", back as i64 - 1_000_000);
            p.faults.push(Fault { at_us, kind: FaultKind::Partition { a: 1, b: pd, both: true } });
            if r.chance(1, 2) {
                for f in 2..2 + x.followers {
                    p.faults.push(Fault { at_us: at_us + r.below(1_000), kind: FaultKind::Partition { a: 1, b: f, both: true } });
                }
            }
            p.faults.push(Fault { at_us: back, kind: FaultKind::Heal });
        }
        _ => {
            // comes back at any time, perhaps before anybody noticed
            p.set("mid_at_us", 0);
            p.set("stop_us", at_us as i64);
            let back = at_us + r.log_range(100_000, 12_000_000);
            p.faults.push(Fault { at_us, kind: FaultKind::Crash { node: 1, silent: r.chance(1, 2) } });
            p.faults.push(Fault { at_us: back, kind: FaultKind::Restart { node: 1 } });
            if r.chance(1, 2) {
                let node = 2 + r.below(u64::from(x.followers)) as u32;
                let at_us = back + r.below(8_000_000);
                p.faults.push(Fault { at_us, kind: FaultKind::Crash { node, silent: r.chance(1, 2) } });
                p.faults.push(Fault { at_us: at_us + r.log_range(100_000, 12_000_000), kind: FaultKind::Restart { node } });
            }
        }
    }
    p
}
fn c14(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    if r.chance(1, 2) {
        failover(prop, seed, r, deep)
    } else {
        members(prop, seed, r, deep)
    }
}
/// Shutdown at any moment, failing accepts, start-up that cannot succeed.
fn c17(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let k = r.below(20);
    let s = Sched::random(r);
    if k < 2 {
        let mut p = Plan::new(prop, "accept", seed, s);
        p.sched.stall_max_us = p.sched.stall_max_us.min(5_000);
        p.set("errors", r.range(1, 10) as i64);
        p.set("errno", *r.pick(&[24, 23, 105, 12, 103]));
        p.set("op_timeout_ms", 300_000);
        let nc = r.below(4) as usize;
        clients(&mut p, nc, 1);
        let span = 140_000_000u64;
        for i in 0..nc {
            let mut o = Opts::kv(p.sched.wall_base_ms);
            o.ttl = 0;
            let mut g = Gen::new(r.fork(), o, 2);
            let mut st = vec![];
            for _ in 0..r.range(2, 20) {
                st.push(Step::Sleep(r.below(span / 10)));
                st.push(Step::Do(g.cmd()));
            }
            st.insert(0, Step::Do(cmd!["PING"]));
            p.clients[i].steps = st;
            p.clients[i].start_us = 20_000;
        }
        p.set("at_us", 1_000_000 + r.below(1_000_000) as i64);
        return p;
    }
    if k < 8 {
        let mut p = Plan::new(prop, "startup", seed, s);
        p.sched.stall_max_us = p.sched.stall_max_us.min(5_000);
        let kind = r.below(10);
        p.set("kind", kind as i64);
        clients(&mut p, 1, 1);
        let mut st = vec![];
        for _ in 0..r.range(2, 10) {
            st.push(Step::Sleep(r.log_range(100, 3_000_000)));
            st.push(Step::Do(cmd!["SET", "k", "v"]));
        }
        p.clients[0].steps = st;
        p.set("op_timeout_ms", 5_000);
        let pd = crate::world::PD;
        if kind == 0 && r.chance(1, 2) {
            // refused or failing at once
            p.faults.push(Fault { at_us: 0, kind: FaultKind::Slow { a: 1, b: pd, us: r.below(100_000) } });
        }
        if kind >= 8 {
            let at_us = if r.chance(1, 4) { r.below(100_000) } else { r.log_range(1, 3_000) };
            p.faults.push(Fault {
                at_us,
                kind: match r.below(5) {
                    0 => FaultKind::ResetLink { a: 1, b: pd },
                    1 => FaultKind::CutLink { a: 1, b: pd, side: r.below(2) as u8, bytes: r.below(150) },
                    2 => FaultKind::Stall { node: pd, us: r.log_range(10_000, 6_000_000) },
                    3 => FaultKind::Crash { node: pd, silent: false },
                    _ => FaultKind::AcceptErr { node: pd, port: crate::world::PD_PORT, n: r.range(1, 3) as u32, errno: 24 },
                },
            });
        }
        return p;
    }
    let cluster = k >= 15;
    let mut p = if cluster {
        let mut p = Plan::new(prop, "shutdown", seed, s);
        let x = Repl {
            followers: r.range(1, 2) as u32,
            writers: r.range(1, 2) as usize,
            readers: r.below(2) as usize,
            ops: r.range(5, 40),
            span_us: r.log_range(20_000, 8_000_000),
            ttl: r.chance(1, 3),
            flush: r.chance(1, 6),
            big: if r.chance(1, 5) { 3 } else { 0 },
        };
        repl(&mut p, r, &x);
        joins(&mut p, r, &x);
        if r.chance(1, 2) {
            links(&mut p, r, &x, 3);
        }
        if r.chance(1, 4) {
            p.faults.push(Fault { at_us: 100_000 + r.below(x.span_us), kind: FaultKind::Crash { node: crate::world::PD, silent: r.chance(1, 2) } });
        }
        p.set("cluster", 1);
        p.set("target", r.range(1, 1 + u64::from(x.followers)) as i64);
        let at = 100_000 + r.below(x.span_us * 5 / 4);
        p.set("signal_us", at as i64);
        // the process under the signal lives on until it ends by itself
        let t = p.get("target") as u32;
        p.faults.retain(|f| f.at_us < at || !matches!(f.kind, FaultKind::Crash { node, .. } | FaultKind::Restart { node } if node == t));
        p
    } else {
        let mut p = match r.below(4) {
            0 => c09("C09", seed, r, deep),
            1 => c05("C05", seed, r, deep),
            2 => c08("C08", seed, r, deep),
            _ => c02("C02", seed, r, deep),
        };
        p.scenario = "shutdown".into();
        p.set("servers", 1);
        let span: u64 = p.clients.iter().map(|c| c.start_us + c.steps.iter().map(|s| if let Step::Sleep(u) = s { *u } else { 300 }).sum::<u64>()).max().unwrap_or(1000);
        p.set("signal_us", if r.chance(1, 12) { r.below(2_000) } else { r.below(span.max(10) * 11 / 10) } as i64);
        p.set("target", 1);
        p
    };
    p.property = prop.into();
    p.set("op_timeout_ms", 10_000);
    p
}
/// Background work in each other's way: keys that are purged while everything is dropped.
fn contended(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let mut s = Sched::random(r);
    if r.chance(1, 2) {
        s.preempt_ppm = *r.pick(&[20_000, 100_000, 300_000]);
        s.stall_ppm = *r.pick(&[0, 2_000, 20_000]);
        s.stall_max_us = *r.pick(&[100, 1_000, 5_000]);
    }
    let mut p = Plan::new(prop, "kv", seed, s);
    let nw = r.range(1, 3) as usize;
    let nf = r.range(1, 2) as usize;
    clients(&mut p, nw + nf, 1);
    let ttl = *r.pick(&[1, 2, 4, 8]);
    let nk = r.range(2, 40);
    let rounds = r.range(2, if deep { 12 } else { 6 });
    for i in 0..nw {
        let mut st = Vec::new();
        for j in 0..rounds {
            let cmds = (0..r.range(1, 12)).map(|_| {
                let k = format!("e{}", r.below(nk));
                match r.below(8) {
                    0 => vec![b("GET"), b(&k)],
                    1 => vec![b("PEXPIRE"), b(&k), b(&r.range(1, ttl).to_string())],
                    _ => vec![b("PSETEX"), b(&k), b(&r.range(1, ttl).to_string()), b(&format!("{i}-{j}"))],
                }
            });
            st.push(Step::Pipe { cmds: cmds.collect(), cuts: vec![], gap_us: 0, read_after_us: 0, read_chunk: 65536, read_gap_us: 0 });
            if r.chance(1, 2) {
                st.push(Step::Sleep(r.log_range(10, 6_000)));
            }
        }
        p.clients[i].steps = st;
    }
    for i in nw..nw + nf {
        let mut st = Vec::new();
        for _ in 0..rounds * 2 {
            st.push(Step::Sleep(r.log_range(10, 6_000)));
            st.push(Step::Do(flushall(r)));
        }
        p.clients[i].steps = st;
    }
    p
}
/// Everything at once: progress, no dead tasks, idle when nobody asks.
fn c15(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    if r.chance(1, 12) {
        // every task of a group makes progress, too
        let mut p = if r.chance(1, 2) { c10("C10", seed, r, deep) } else { c12("C12", seed, r, deep) };
        p.property = prop.into();
        return p;
    }
    let mut p = match r.below(10) {
        8 | 9 => contended(prop, seed, r, deep),
        6 => c09("C09", seed, r, deep),
        7 => c05("C05", seed, r, deep),
        0 => c01("C01", seed, r, deep),
        1 => c02("C02", seed, r, deep),
        2 => c03("C03", seed, r, deep),
        3 => c06("C06", seed, r, deep),
        4 => c08("C08", seed, r, deep),
        _ => c04("C04", seed, r, deep),
    };
    p.property = prop.into();
    if p.get("op_timeout_ms") == 0 {
        // dropping everything takes every lock of the database, and the scheduler may hold it up at each
        let all = p.clients.iter().flat_map(|c| &c.steps).filter(|s| matches!(s, Step::Do(c) if c[0] == b("FLUSHALL"))).count() as u64;
        let s = &p.sched;
        let held_us = 80_000 * u64::from(s.preempt_ppm) * u64::from(s.stall_ppm) / 1_000_000 * (s.stall_max_us / 2) / 1_000_000;
        p.set("op_timeout_ms", (10_000 + all * held_us / 1_000) as i64);
    }
    if r.chance(1, 2) {
        p.set("quiet_ms", r.log_range(2_000, 60_000) as i64);
    }
    p
}
/// Clock steps.
fn c16(prop: &str, seed: u64, r: &mut Rng, deep: bool) -> Plan {
    let mut p = c06(prop, seed, r, deep);
    let span: u64 = p.clients.iter().map(|c| c.steps.iter().map(|s| if let Step::Sleep(u) = s { *u } else { 300 }).sum::<u64>()).max().unwrap_or(1000);
    for c in &mut p.clients {
        let n = c.steps.len();
        for _ in 0..r.range(0, 4) {
            let j = r.usize(n + 1);
            let key = c.steps.iter().find_map(|s| if let Step::Do(c) = s { c.get(1).cloned() } else { None }).unwrap_or(b("k0"));
            c.steps.insert(j.min(c.steps.len()), Step::Do(vec![b("OBJECT"), b(if r.chance(1, 2) { "IDLETIME" } else { "FREQ" }), key]));
        }
    }
    for _ in 0..r.range(1, 4) {
        let amount = match r.below(6) {
            0 => r.log_range(1, 100),
            1 | 2 => r.log_range(100, 100_000),
            3 => r.log_range(100_000, 1_000_000_000),
            4 => 1_790_000_000_000 + r.below(1_000_000),
            _ => r.log_range(1_000_000_000, 400_000_000_000),
        } as i64;
        let ms = if r.chance(1, 2) { -amount } else { amount };
        p.faults.push(Fault { at_us: 100_000 + r.below(span.max(10)), kind: FaultKind::ClockStep { node: 1, ms } });
    }
    p
}
pub const ALL: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];
pub fn rule(_prop: &str) -> String {
    "one evaluation = one simulated execution of a plan generated from its seed; non-trivial = at least one request was answered and its interleaving hash was not seen before in this check".into()
}
pub fn real(_prop: &str) -> Vec<&'static str> {
    vec![
        "component/server (listener, handlers, all commands)",
        "component/db, dict, common, keys (slots, expiry task, forwarding, replication, snapshots, configuration)",
        "component/pd (placement driver)",
        "bin/server.rs (main)",
    ]
}
pub fn stub() -> Vec<&'static str> {
    vec![
        "tokio runtime, timers, TCP and signals (simulated runtime of the same API)",
        "parking_lot mutexes, flume/once_cell parking (simulated blocking, real data structures)",
        "libc clock, sockets, entropy, fork/waitpid/exit (interposed; the snapshot child is a real forked process whose output is replayed through the simulated network)",
    ]
}
pub fn assumptions() -> Vec<&'static str> {
    vec![
        "interleavings are explored at synchronisation points (locks, channels, socket and timer operations, task switches); between them a simulated thread runs atomically",
        "sequentially consistent memory",
    ]
}
