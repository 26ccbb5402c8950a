"""P13: ignored symbols are skipped exactly where they cannot be used."""
import vf, lrcases

def run(ctx):
    ctx.model("ReaderMC.tla", "ReaderMC_small.cfg")
    if ctx.thorough: ctx.model("ReaderMC.tla", "ReaderMC_two.cfg")
    vf.build("d_parse")
    rng = ctx.rng("lr")
    cases = [lrcases.ignored_case(rng) for _ in range(ctx.scale(3000, 60000))]
    recs = ctx.drive("d_parse", cases, "lr", timeout=20)
    ok = [r for r in recs if not r["crash"]]
    ctx.count("grammars_without_conflicts", sum(1 for r in ok if not r["obs"]["conf0"]))
    ctx.count("words_judged", sum(len(r["obs"]["runs"]) for r in ok))
    bad = ctx.judge("JParse.tla", "JParse.cfg", recs, "lr")
    ctx.confirm("d_parse", bad, "lr", "JParse.tla", "JParse.cfg")
