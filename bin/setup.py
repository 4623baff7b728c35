#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import os, sys, subprocess, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++", "java"):
    if not shutil.which(t): sys.exit("missing " + t)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for s in sorted(glob.glob(V + "/spec/*.tla")):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(s)], cwd=V + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: sys.exit(p.stdout)
print("ok")
