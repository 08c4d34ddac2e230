#!/usr/bin/env python3
"""Prints a replay file compactly."""
import json,sys
d=json.load(open(sys.argv[1]))
p=d["plan"]
print(d["key"],d["msg"])
for m in p.get("lib",{}).get("modules",[]): print("  module",m["name"],"iface" if m.get("iface") else "", json.dumps(m["items"]))
for o in p.get("ops",[]):
    print("  op",json.dumps(o))
print({k:v for k,v in p.items() if k not in("lib","ops","scheds")})
for i,s in enumerate(p.get("scheds",[])): print("  sched",i,{k:v for k,v in s.items() if k!="replay"}, "replay len",len(s.get("replay") or []))
