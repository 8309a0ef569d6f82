"""Runs types_smt.py under the interpreter that has z3."""
import json, os, subprocess, sys
import run as R
SELF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "types_smt.py")


def extra(pid):
    def go(tier):
        p = subprocess.run(["python3-vt", SELF, pid, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            return json.loads(p.stdout.splitlines()[-1])
        except Exception:
            raise R.CheckError(f"types_smt: {p.stdout[-500:]} {p.stderr[-2500:]}")
    return go


def extra_probe(pid, script):
    def go(tier):
        p = subprocess.run(["python3-vt", os.path.join(os.path.dirname(SELF), script), pid, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            return json.loads(p.stdout.splitlines()[-1])
        except Exception:
            raise R.CheckError(f"{script}: {p.stdout[-500:]} {p.stderr[-2500:]}")
    return go


def prepare():
    """setup: build what the type-level checks need (extraction, and the library for replays)"""
    p = subprocess.run(["python3-vt", SELF, "setup"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise R.CheckError(p.stdout[-2000:])
    for script in ("types_generic.py", "types_units.py"):
        p = subprocess.run(["python3-vt", os.path.join(os.path.dirname(SELF), script), "setup"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise R.CheckError(p.stdout[-2000:])
