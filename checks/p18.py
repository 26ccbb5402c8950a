"""P18: what the compiler reports about definition files is what is wrong with them."""
import vf, lang

def run(ctx):
    ctx.model("Imports.tla", "Imports_big.cfg" if ctx.thorough else "Imports.cfg")
    if ctx.thorough: ctx.model("Imports.tla", "Imports_live.cfg")
    vf.build("l_lang")
    rng = ctx.rng("diag")
    cases = [lang.diag_case(rng) for _ in range(ctx.scale(2500, 40000))]
    recs = ctx.drive("l_lang", cases, "diag", timeout=20)
    ok = [r for r in recs if not r["crash"]]
    ctx.count("definitions", len(ok))
    ctx.count("definitions_rejected", sum(r["obs"]["stage"] != "run" for r in ok))
    ctx.count("reports_judged", sum(len(r["obs"]["errs"]) for r in ok))
    bad = ctx.judge("JDiag.tla", "JDiag.cfg", recs, "diag")
    ctx.confirm("l_lang", bad, "diag", "JDiag.tla", "JDiag.cfg")
