"""Known findings: genuine defects recorded in known-findings.txt, each with a reproducer."""
import os
from engine import ROOT
REPRO = {}
def listed():
    o = []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        if l.startswith("finding: "):
            w = dict(x.split("=", 1) for x in l.split()[1:3]); o.append((w["property"], w["id"], l.split(None, 3)[3].strip()))
    return o
def report(run):
    for prop, k, text in listed():
        if prop == run.pid: yield f"KNOWN-FINDING: property={prop} {k}: {text}"
