#!/usr/bin/env python3
"""Runs the command line tool on cases, each in a scratch directory of its own, and records what it did.
usage: tooldrv.py CASES OBS START TIMEOUT TOOL"""
import json, os, re, shutil, subprocess, sys, tempfile

SEVS = {"": 1, "    ": 2, " warning:": 3, " error:": 4, " failure:": 5, " compiler failure:": 6}
LINE = re.compile(r"^([^:]*):(-?\d*):(-?\d*):(    | warning:| error:| failure:| compiler failure:|) \[([A-Z_0-9]+)\]")

def observe(c, tool, timeout):
    d = tempfile.mkdtemp(prefix="tool", dir=os.getcwd())
    try:
        os.mkdir(os.path.join(d, "d"))
        for name, text in c["texts"].items():
            with open(os.path.join(d, name), "w") as f: f.write(text)
        os.mkdir(os.path.join(d, "ok"))
        if c["o"]["out"] == "full": os.symlink("/dev/full", os.path.join(d, "full.cpp"))
        before = {os.path.join(p, n) for p, _, ns in os.walk(d) for n in ns}
        try:
            p = subprocess.run([tool] + c["args"], cwd=d, input=c["stdin"].encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"exit": -99}
        out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        if p.returncode < 0: return {"exit": p.returncode}
        msgs, other = [], 0
        for line in err.splitlines():
            m = LINE.match(line)
            if m: msgs.append({"sev": SEVS[m.group(4)], "code": m.group(5), "file": m.group(1), "line": int(m.group(2) or 0), "col": int(m.group(3) or 0)})
            else: other += 1
        for line in out.splitlines():
            m = LINE.match(line)
            if m: msgs.append({"sev": SEVS[m.group(4)], "code": m.group(5), "file": m.group(1), "line": int(m.group(2) or 0), "col": int(m.group(3) or 0)})
        files = sorted(os.path.relpath(os.path.join(p, n), d) for p, _, ns in os.walk(d) for n in ns if os.path.join(p, n) not in before)
        cls = space = ""; whole = True
        for f in files:
            with open(os.path.join(d, f), errors="replace") as g: t = g.read()
            if f.endswith(".h"):
                m = re.search(r"^class (\w+) \{", t, re.M); cls = m.group(1) if m else ""
                m = re.search(r"^namespace (\w+) \{", t, re.M); space = m.group(1) if m else ""
                whole = whole and t.rstrip().endswith("#endif") and t.count("{") == t.count("}")
            else: whole = whole and "#include \"%s.h\"" % f[:-4] in t and t.count("{") == t.count("}") and t.rstrip().endswith(("}", ";"))
        return {"exit": p.returncode, "msgs": [json.loads(x) for x in sorted({json.dumps(m) for m in msgs})], "other": other, "files": files, "class": cls, "space": space, "whole": whole,
                "banner": out.startswith("TameParse "), "shown": "== Parser tables:" in out, "tree": bool(re.search(r"^(<\w+>|\+- )", out, re.M)) and "== Parser" not in out or bool(re.search(r"^\+- ", out, re.M)),
                "usage": "bogus" in err and "Input options" in out}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    cases, outp, start, timeout, tool = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    with open(cases) as f, open(outp, "w") as o:
        for line in f:
            c = json.loads(line)
            if c["id"] < start: continue
            o.write(json.dumps({"id": c["id"], "obs": observe(c, tool, timeout)}) + "\n"); o.flush()
main()
