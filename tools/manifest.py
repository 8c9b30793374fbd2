#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of the built checks (run by hand when a check is added)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive enumeration of a bounded space of operation sequences and inputs on the real code, judged by an independent RFC 5424 reference model"
SCH = "stateless model checking of the real code (import-rewriting overlay): all interleavings, faults and timer firings within bounds, dynamic partial-order reduction with state hashing"
NET = "exhaustive enumeration of endpoint configurations and target states on the real code with real sockets in a scratch directory"
built = {}
for l in open(os.path.join(here, "tools", "built.txt")):
    l = l.strip()
    if l and not l.startswith("#"):
        i, kind, note = l.split("|", 2)
        built[i] = ({"seq": SEQ, "sch": SCH, "net": NET}[kind], note)
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in built:
        t, note = built[p]
        checks.append({"property": p, "quick_cmd": "bash run.sh %s quick" % p, "thorough_cmd": "bash run.sh %s thorough" % p,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the scheduled checks build a rewritten copy of the sources through go build -overlay (instr/), the others use the library as it is."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
