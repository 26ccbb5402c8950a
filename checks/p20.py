"""P20: test blocks report which texts are sentences of the language."""
import json, os, re
import vf, lang

RESULT = re.compile(r"^\s*(\S.*?)\.*(ok|FAILED)\s*$")
TOTAL = re.compile(r"^\s*(\S+): (\d+)/(\d+) passed\s*$")
def codes(s): return [ord(c) for c in s]

def parse(r, files=True):
    """What the run printed: per block the results and the totals."""
    if r["crash"]: return
    t = r["obs"]["t"]
    if "out" not in t: return
    blocks, res = [], []
    for line in t.pop("out"):
        m = TOTAL.match(line)
        if m: blocks.append({"lang": codes(m.group(1)), "res": res, "p": int(m.group(2)), "n": int(m.group(3))}); res = []; continue
        m = RESULT.match(line)
        if m: res.append({"name": codes(m.group(1)), "ok": m.group(2) == "ok"})
    t["blocks"] = blocks; t["rest"] = len(res)
    for e in t["errs"]:
        if files: e["file"] = codes(e["file"])
        e.pop("msg", None)

def run(ctx):
    vf.build("l_lang")
    rng = ctx.rng("tests")
    cases = [lang.test_case(rng) for _ in range(ctx.scale(2500, 20000))]
    recs = ctx.drive("l_lang", cases, "tests", timeout=20)
    for r in recs: parse(r)
    ok = [r for r in recs if not r["crash"]]
    ctx.count("definitions", len(ok))
    ctx.count("test_blocks", sum(len(r["obs"]["t"]["blocks"]) for r in ok))
    ctx.count("tests_run", sum(len(b["res"]) for r in ok for b in r["obs"]["t"]["blocks"]))
    ctx.count("tests_failed", sum(1 for r in ok for b in r["obs"]["t"]["blocks"] for x in b["res"] if not x["ok"]))
    bad = ctx.judge("JTest.tla", "JTest.cfg", recs, "tests")
    ctx.confirm("l_lang", bad, "tests", "JTest.tla", "JTest.cfg", prepare=lambda rs: [parse(r) for r in rs])

    # the inputs of KNOWN_FINDINGS.jsonl: Compiler/test_stage.cpp counts as a test file here and could not be repaired, so
    # tests of undefined nonterminals, with long names, and of languages with errors are not generated above
    with open(os.path.join(vf.VERIF, "checks", "p20_known.json")) as f: known = json.load(f)
    for stage, module, files in (("tests", "JTest", True), ("broken", "JTestDiag", False)):
        recs = ctx.drive("l_lang", [k["case"] for k in known if k["stage"] == stage], "known." + stage, timeout=20)
        for r in recs: parse(r, files)
        bad = ctx.judge(module + ".tla", module + ".cfg", recs, "known." + stage)
        ctx.confirm("l_lang", bad, "known." + stage, module + ".tla", module + ".cfg", prepare=lambda rs: [parse(r, files) for r in rs])
