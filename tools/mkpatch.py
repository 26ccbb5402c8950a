#!/usr/bin/env python3
"""mkpatch.py ID FILE <<< 'OLD\n====\nNEW'  -- append an edit to seeded/ID/patch.diff (made in a scratch copy)"""
import sys, os, subprocess, tempfile, shutil
ID = sys.argv[1]; edits = sys.stdin.read()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="mkpatch.")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    for e in edits.split("\n@@@@ ")[0:] if edits.startswith("@@@@ ") else []:
        e = e[5:] if e.startswith("@@@@ ") else e
        fn, body = e.split("\n", 1)
        old, new = body.split("\n====\n", 1)
        if new.endswith("\n") : new = new[:-1]
        p = os.path.join(d, "r", fn.strip()); s = open(p, newline="").read()
        if s.count(old) != 1 and "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d + "/r", "diff"])
    os.makedirs(os.path.join(V, "seeded", ID), exist_ok=True)
    open(os.path.join(V, "seeded", ID, "patch.diff"), "wb").write(diff)
    print(diff.decode(errors="replace"))
finally:
    shutil.rmtree(d)
