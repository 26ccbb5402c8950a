"""P19: the C++ written for a definition is a parser of the same language that builds the trees of its derivations."""
import vf, gen

def run(ctx):
    vf.build("l_lang")
    rng = ctx.rng("gen")
    cases = [gen.gen_case(rng) for _ in range(ctx.scale(230, 2400))]
    recs = ctx.drive("l_lang", cases, "gen", timeout=20)
    gen.build_and_run(ctx, recs)
    ok = [r for r in recs if not r["crash"] and r["obs"]["stage"] == "run" and not r["genfail"]]
    ctx.count("generated_parsers", len(ok))
    ctx.count("texts_parsed", sum(len(r["obs"]["runs"]) for r in ok))
    ctx.count("trees_compared", sum(1 for r in ok for x in r["obs"]["runs"] if x["res"] == 1))
    bad = ctx.judge("JGen.tla", "JGen.cfg", recs, "gen")
    ctx.confirm("l_lang", bad, "gen", "JGen.tla", "JGen.cfg", prepare=lambda r: gen.build_and_run(ctx, r))
