#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and jobs.py"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs
V = os.path.dirname(HERE)
NA = {
    "C30": "the code does not exist: RootRandomBitGeneration::generate_random_bit, the only implementation, ends in unimplemented!() where the square root is needed, so there is no result to judge",
    "C31": "the code does not exist: RSA key generation is unimplemented!() in /repo, so there is no implementation to encode",
}
import subprocess
# a copy of /repo may have no history: keep what the manifest says then
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
old = os.path.join(V, "MANIFEST.json")
HOOKS = log or (json.load(open(old))["hooks"]["source_commits"] if os.path.exists(old) else [])
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in jobs.PROPS:
        p = jobs.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                           technique="symbolic execution of the compiled LLVM IR of the real code, assertions decided by SMT (z3); counterexamples replayed natively",
                           level="model_checking", level_note="bounds: %s. Outside: %s." % (p["bounds"], p["outside"])))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "machinery not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="cfg(jester_verif)", enable="RUSTFLAGS='--cfg jester_verif' (set by tools/ir.py and check.py)", source_commits=HOOKS), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
