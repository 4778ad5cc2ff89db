#!/usr/bin/env python3
"""Writes known_findings.json: `fixed` from the fix: commits in /repo, `findings` from FINDINGS below."""
import json, subprocess, os
TAGS = {
 "ZADD INCR":"C01","ZADD GT":"C01","ZADD CH":"C01","inverted or empty":"C01","score ranges":"C01","NaN scores":"C01",
 "DEBUG OBJECT":"C04","malformed score":"C04","lex range from":"C01","members with line":"C03","an error reply":"C03",
 "INCR, INCRBY":"C01","purge task removes":"C07","expired key that is not":"C06","clock set back":"C16","backward step":"C16","RESTORE IDLETIME":"C04",
 "negative, zero":"C06","plain SET":"C07","expire and forward messages":"C11","names its slots":"C09","not cut off":"C09",
 "slot that does not exist":"C04","re-synchronising one slot":"C12","starts as leader":"C13","FLUSHALL reaches":"C10",
 "RESTORE reaches":"C10","deeply nested arrays":"C04","replica subscribes":"C12","snapshot transfer that fails":"C12",
 "leader that went silent":"C12","heartbeats go on":"C14","system time":"C13","reaping snapshot":"C17",
 "keeps retrying its snapshot":"C17","SET with GET":"C01","range of an empty list":"C15","merely starts with":"C01",
 "rank range of an empty":"C15","lone sign":"C01","LIMIT with":"C15","never sent a heartbeat":"C14","follower does not serve":"C14","before the fork":"C09","unknown argument after":"C04","length or integer":"C04","RESTORE payload is":"C04","RESTORE payload with a NaN":"C04",
}
import sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","1a9a116..HEAD"],text=True).splitlines()
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    t=[v for k,v in TAGS.items() if k in s] or sys.exit("no property for: "+s)
    fixed.append(f"fixed: property={t[0]} {h} {s[5:]}")
FINDINGS=[
 {"id":"C10-late-command","property":"C10","plan":"known/C10-late-command.json",
  "matches":"expiring is absent on the leader but Str",
  "what":"a follower judges expiry by its own clock when it applies a command: `SET expiring 5 PXAT T` and `INCR expiring` just before T reach a follower 100 ms behind after T, which creates the counter anew, without an expiry, while the leader purges it"},
]
json.dump({"findings":FINDINGS,"fixed":fixed},open(f"{root}/known_findings.json","w"),indent=1,ensure_ascii=False)
