#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
import checks
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = {
 "C": "bounded: every case of the stated family, and for the concurrent ones every schedule, match and completion choice within the deviation bound, on 2-4 processes; MPI, shared memory, semaphores and threads are simulated (sequentially consistent)",
 "G": "bounded: every case of the stated finite family (shapes, distributions, patches, types) under the default schedule, plus deviations where the property depends on the schedule; the real code runs on the simulated MPI",
}
def note(i): return NOTE["C"] if i[0] in "CT" else NOTE["G"]
TECH = {"C": "stateless model checking of the real code: exhaustive schedule/case enumeration under a controlled scheduler (mpisim), deviation-bounded",
        "G": "explicit enumeration of all bounded operation cases/sequences executed on the real code under the controlled scheduler, against a sequential reference model",
        "M": "explicit-state exploration of all bounded operation sequences of the real allocator against a reference model",
        "D": "explicit enumeration of all bounded I/O histories and short-transfer fault choices on the real code against a byte-array model"}
TECH["T"] = TECH["C"]
NA = "no check is built for this property yet"
m = dict(version=1, setup_cmd="./check --selftest",
         checks=[dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i, technique=TECH[i[0]], level="model_checking", level_note=note(i)) for i in ids if i in checks.PROPS],
         not_applicable=[dict(property=i, reason=NA) for i in ids if i not in checks.PROPS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "claimed")
