#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: a property is claimed when harness/<id>.go registers it."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(root + "/harness/*.go"))
done = set(re.findall(r'register\(&Prop\{\s*ID:\s*"(C\d\d)"', src))
TECH = {
 "C20": "Go race detector over concurrent stress workloads of the public API (memory-model sanitizer)",
}
notes = {
 "default": "Holds on all executions explored: generated workloads and fault schedules over the real library in virtual time, judged by an oracle that knows only the public API and the bytes on the wire. Exploration, not proof. Trusts the harness' own codecs and in-memory transport and Go's testing/synctest clock.",
 "C18": "Holds on all executions explored of the real HTTP handlers over an in-memory network; exploration, not proof. Trusts net/http and the harness' own HTTP and websocket client code.",
 "C19": "Holds on all executions explored of the real HTTP transports and routers over an in-memory network; exploration, not proof. Trusts net/http and the websocket library.",
 "C25": "Holds on all executions explored of the real set-up of HTTP connections against a scripted server over an in-memory network; exploration, not proof. Trusts net/http and the websocket library.",
 "C20": "No race reported by the Go race detector on the interleavings executed; sound (no false reports), complete only for executed code. Trusts the race detector.",
 "C22": "Holds on all executions explored of the real Redis lifetime manager against an in-harness Redis server (RESP subset); exploration, not proof. Trusts the fake server's pub/sub and set semantics.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i, "runtime monitoring: trace oracle over randomized virtual-time executions with fault injection"),
            level="exploration", level_note=notes.get(i, notes["default"])))
    else:
        na.append(dict(property=i, reason="no check has been built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all observation happens at the public API and on the wire. Run tools/mkmanifest.py to regenerate.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
