#!/usr/bin/env python3
"""Checks that the toolchain the checks need is present, and regenerates the trace specifications."""
import subprocess, shutil, sys, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "g++"):
    if not shutil.which(t):
        sys.exit("missing " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
for f in sorted(glob.glob(os.path.join(V, "spec", "Trace*.tla"))):
    m = os.path.basename(f)[5:-4]
    if os.path.exists(os.path.join(V, "spec", m + ".tla")) and "generated" in open(f).read():
        subprocess.run(["./mktrace.sh", m], cwd=os.path.join(V, "spec"), check=True)
print("ok")
