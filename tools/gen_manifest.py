#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the simulator generates plans for."""
import json, os, subprocess, re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(f"{root}/sim/harness/src/plans.rs").read()
claimed=re.findall(r'"(C\d\d)"', re.search(r"pub const ALL:[^=]*=\s*\[(.*?)\];", src, re.S).group(1))
NOTE={
}
T="deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults of the real server code"
oracle={
 "C01":"per-key linearizability search of the recorded history against an executable reference model",
 "C02":"token accounting over broken connections (at most once, acknowledged ones exactly once, per-connection prefix) plus linearizability",
 "C03":"per-connection reply counting and order, and differential replay of every request alone",
 "C04":"victim clients checked by linearizability and connection health while hostile clients misbehave",
 "C05":"counting of served connections against the limit at every event, and capacity restored after every kind of ending",
 "C06":"reference model with expiry instants as intervals of the simulated wall clock",
 "C07":"memory charged to the simulated process after everything due has expired, and live keys still there",
 "C08":"reference model around FLUSHALL, and memory given back",
 "C09":"the snapshot decoded and every key's instant intersected against the write history",
 "C10":"content and expiry of every key on every follower compared with the leader after quiescence",
 "C11":"every follower read explained by a monotone prefix of the leader's single-writer history",
 "C12":"convergence within bounded simulated time after faults on the replication stream stop",
 "C13":"every answer of the placement driver to every member recorded and checked for a unique, stable leader",
 "C14":"bounded simulated time from the leader's silence until a live member was appointed and everybody learnt it",
 "C15":"bounded reply times, deadlock and livelock detection of the scheduler, idle step budget, panics and dead tasks",
 "C16":"the model, connection health and panic detection under wall clock steps of any size",
 "C17":"run returns within bounded simulated time after the signal, no connection accepted afterwards, start-up failures reported",
}
na={
 "C18":"key to slot routing is a pure function of the key bytes: no schedule, time, I/O or fault can influence it, so simulation would only be input sampling; left to unit or property-based tests",
 "C19":"frame encoding and decoding are pure functions of bytes; the part that depends on packetization, partial reads and connection endings is decided under C03 and C04",
}
props=[json.loads(l) for l in open(f"{root}/properties.jsonl")]
checks=[]; nal=[]
for p in props:
    i=p["id"]
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":T+"; oracle: "+oracle[i],"level":"exploration",
          "level_note":"Seeded random search, not exhaustive: quiet means no violation in the executions explored (counted in the evidence file). The server, placement driver, replication, snapshot and command code are the real sources from /repo; the tokio runtime and the operating system (scheduling, sockets, clocks, entropy, fork) are the simulator's. Interleavings are explored at synchronisation points under sequentially consistent memory."})
    else:
        nal.append({"property":i,"reason":na.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none","enable":"no hooks in /repo: the simulator links the unchanged crates against its own tokio, parking_lot, flume and once_cell ([patch.crates-io] in /verif/sim/Cargo.toml) and interposes libc symbols at link time","source_commits":[]},
 "checks":checks,"not_applicable":nal,
 "notes":"Replay a reported violation with: /verif/sim/target/debug/sim replay FILE. Determinism self-check: sim determinism C01 ... --runs N."},
 open(f"{root}/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(nal),"not")
