#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.dont_write_bytecode = True
import plan
HOOK = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], text=True).split()
NOTE = "bounded symbolic execution of the whole program's LLVM IR (regenerated from /repo on every run); z3 decides every branch and assertion over all values of the symbolic inputs; counterexamples are replayed natively before they are reported. "
checks = [dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p, technique="solver-based symbolic execution of the compiled code (LLVM IR, z3)", level="model_checking", level_note=NOTE + "Bounds: " + plan.BOUNDS[p]) for p in sorted(plan.PLAN)]
m = dict(version=1, setup_cmd="./check --setup", hooks=dict(guard="siamesedb_verif", enable="RUSTFLAGS='--cfg siamesedb_verif' (set by /verif/check for the harness crate, which depends on /repo by path)", source_commits=HOOK), checks=checks, not_applicable=plan.NOT_APPLICABLE)
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
