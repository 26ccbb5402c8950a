"""P07: FIRST and FOLLOW sets."""
import vf, lrcases, cfgen

def run(ctx):
    vf.build("d_lr")
    rng = ctx.rng("sets")
    cases = [lrcases.grammar_case(rng, sets=True, machine=False, ebnf=rng.choice([0, .2, .4])) for _ in range(ctx.scale(6000, 60000))]
    for src in cfgen.CLASSIC:
        c = lrcases.classic_case(rng, src, 0); c.update(sets=True, start=[], words=[]); cases.append(c)
    recs = ctx.drive("d_lr", cases, "sets")
    ctx.count("symbols", sum(len(r["syms"]) for r in recs))
    bad = ctx.judge("JSets.tla", "JSets.cfg", recs, "sets")
    ctx.confirm("d_lr", bad, "sets", "JSets.tla", "JSets.cfg")
