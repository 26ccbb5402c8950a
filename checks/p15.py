"""P15: guards are read exactly where what follows matches them."""
import vf, lrcases

def run(ctx):
    ctx.model("GuardMC.tla", "GuardMC.cfg")
    if ctx.thorough: ctx.model("GuardMC.tla", "GuardMC_nested.cfg")
    vf.build("d_parse")
    rng = ctx.rng("lr")
    cases = [lrcases.guard_case(rng) for _ in range(ctx.scale(5000, 60000))]
    recs = ctx.drive("d_parse", cases, "lr", timeout=20)
    ok = [r for r in recs if not r["crash"]]
    ctx.count("grammars_without_conflicts", sum(1 for r in ok if not r["obs"]["conf0"]))
    ctx.count("words_judged", sum(len(r["obs"]["runs"]) for r in ok))
    ctx.count("sentences_with_guards", sum(1 for r in ok for x in r["obs"]["runs"] if x["res"] == 1 and sum(e["a"] == "s" for e in x["ev"]) > len(x["w"])))
    bad = ctx.judge("JGuard.tla", "JGuard.cfg", recs, "lr")
    ctx.confirm("d_parse", bad, "lr", "JGuard.tla", "JGuard.cfg")
