#!/usr/bin/env python3
"""show.py LOG [ROOM-substr] [CLIENT-substr]: condensed view of a scenario log."""
import sys, json
log, room, cl = (sys.argv + ["", "", ""])[1:4]
on = False
for l in open(log):
    l = l.rstrip()
    if l.startswith("VIOLATION"): print(l[:400]); continue
    if l.startswith("== client"):
        on = cl in l
        if on: print(l)
        continue
    if l.startswith("-> "):
        if on: print(l[:700])
        continue
    if l.startswith("<- "):
        if not on: continue
        try: d = json.loads(l.split(" ", 2)[2])
        except Exception: print(l[:300]); continue
        print("<-", d.get("pos"), json.dumps({k: {"n": v.get("count"), "ops": [[o["op"][:3], o.get("index", o.get("range")), o.get("room_id", o.get("room_ids"))] for o in v.get("ops", [])]} for k, v in (d.get("lists") or {}).items()}))
        for k, r in (d.get("rooms") or {}).items():
            if room in k:
                print("    ", k, "INIT" if r.get("initial") else "", "tl", [e["event_id"] for e in r.get("timeline", [])], "rs", [e["event_id"] for e in r.get("required_state", [])], {x: y for x, y in r.items() if x not in ("timeline", "required_state", "initial", "heroes")})
        continue
    if "STEP" in l or (room in l): print(l[:260])
