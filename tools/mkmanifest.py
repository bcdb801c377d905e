#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
HIST = "generated operation histories against a reachability model, recording allocator, forked per case"
CONC = "generated concurrent programs under generated schedules (controlled scheduler), checked during the run and at quiescence"
DTOR = "generated operation histories over values whose destructors run generated scripts, compared to a model, and generated concurrent programs with such values under generated schedules"
PROG = "generated programs compiled against the library"
T = {
 "C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST + ", several threads one operation at a time",
 "C05": HIST + ", several threads one operation at a time",
 "C06": CONC, "C07": CONC, "C08": CONC,
 "C09": DTOR, "C16": DTOR + ", with injected panics, poisoned locks and leaked guards",
 "C15": "generated histories of threads that exit, with pointers in thread-local variables, compared to a model after every exit, and generated concurrent programs of such threads under generated schedules",
 "C12": "generated operation histories, counters read by conditions compared to a model",
 "C13": "generated operation histories with generated conditions, compared to a model of who is asked and what must follow",
 "C10": PROG + ": type definitions with the derive, whose values are visited with a recording visitor and compared to what was put in",
 "C11": "generated values nesting the library's types in generated borrow states, visited with a recording visitor and compared to what was put in",
 "C14": "generated heap shapes and churn histories under the default condition, garbage and traversal work compared to bounds",
 "C17": "generated operation histories over values of several types, the pointer API compared to a model",
 "C18": PROG + ": type expressions in contexts, acceptance compared to what their structure implies",
 "C19": HIST + ", with pointers coerced to slices and trait objects; and generated concurrent programs with pointers to slices under generated schedules",
 "C20": "generated operation histories over graphs of both kinds of pointers, compared to a reachability model, and generated concurrent programs with both under generated schedules",
}
NOTE = "Search over generated inputs: it shows the presence of violations in what was explored, not their absence elsewhere. Trusts the model and allocator in /verif/harness."
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg(dumpster_verif)"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "hooks": {"guard": "--cfg dumpster_verif", "enable": "RUSTFLAGS='--cfg dumpster_verif' (set by /verif/env.sh)", "source_commits": hooks},
 "checks": [dict(property=p, quick_cmd=f"bash /verif/check.sh {p}", thorough_cmd=f"bash /verif/check.sh {p}",
                 technique=T[p], level="exploration", level_note=NOTE) for p in props if p in T],
 "not_applicable": [dict(property=p, reason="the check for this property is not built yet") for p in props if p not in T],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
