#!/usr/bin/env python3
"""builds the executor, the IR of every harness and the native runner, and checks the specifications"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
import check, jobs
check.build(sorted({j.crate for p in jobs.PROPS.values() for j in p["quick"]}))
print("built")
import subprocess
r = subprocess.run([sys.executable, os.path.join(HERE, "spec_check.py")]).returncode
r |= subprocess.run([os.path.join(os.path.dirname(HERE), "engine", "target", "release", "jsym"), "selftest", "1", "4000"]).returncode
sys.exit(r)
