"""P21: definition files are read as they are written."""
import vf, deftext

def run(ctx):
    vf.build("l_def")
    ctx.model("DefMC.tla", "DefMC_big.cfg" if ctx.thorough else "DefMC.cfg")
    rng = ctx.rng("continuations")
    all = deftext.continuations()
    if not ctx.thorough: all = rng.sample(all, 16000)
    def judged(cases, stage):
        recs = ctx.drive("l_def", cases, stage, timeout=20)
        ok = [r for r in recs if not r["crash"]]
        ctx.count("definitions", len(ok))
        ctx.count("definitions_with_mistakes", sum(1 for r in ok if r["obs"]["errs"]))
        ctx.count("tokens", sum(len(r["toks"]) for r in ok))
        bad = ctx.judge("JDef.tla", "JDef.cfg", recs, stage)
        ctx.confirm("l_def", bad, stage, "JDef.tla", "JDef.cfg")
    judged([deftext.continued(rng, x) for x in all], "continuations")
    rng = ctx.rng("definitions")
    judged([deftext.case(rng) for _ in range(ctx.scale(12000, 120000))], "definitions")
