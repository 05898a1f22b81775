#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def parse(f):
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", CP, "tla2sany.SANY", f], capture_output=True, text=True, cwd=os.path.join(ROOT, "spec"))
    return f, p.returncode, p.stdout + p.stderr


subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
bad = 0
with cf.ThreadPoolExecutor(8) as pool:
    for f, rc, out in pool.map(parse, sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla")))):
        if rc != 0 or "Semantic error" in out or "Parse Error" in out:
            print(f, out[-2000:])
            bad += 1
print("%d specifications failed to parse" % bad if bad else "ok")
sys.exit(1 if bad else 0)
