#!/usr/bin/env python3
"""Builds nothing that a check depends on; confirms that the offline tools are there and the specifications parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for t in (["java", "-version"], ["g++", "--version"], ["make", "--version"]):
    bad |= subprocess.run(t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", jars, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-3000:]); bad = 1
sys.exit(1 if bad else 0)
