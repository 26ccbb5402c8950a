"""P08: the parser generator builds the LALR(1) machine of the grammar."""
import vf, lrcases, cfgen

def run(ctx, cfg="JLr.cfg", words=False, quick=2500):
    vf.build("d_lr")
    ctx.model("LrMC.tla", "LrMC_order.cfg")
    ctx.model("LrMC.tla", "LrMC_two.cfg" if ctx.thorough else "LrMC.cfg")
    rng = ctx.rng("lr")
    cases = []
    for _ in range(ctx.scale(quick, 12 * quick)):
        c = lrcases.grammar_case(rng, long=4 if words else 0)
        if not words: c["words"] = []
        cases.append(c)
    for _ in range(ctx.scale(2, 30)):
        for src in cfgen.CLASSIC: cases.append(lrcases.classic_case(rng, src, 40 if words else 0))
    recs = ctx.drive("d_lr", cases, "lr")
    ok = [r for r in recs if not r["crash"]]
    ctx.count("states_built", sum(len(r["obs"]["states"]) for r in ok))
    ctx.count("grammars_without_conflicts", sum(1 for r in ok if not r["obs"]["conf"]))
    ctx.count("words_parsed", sum(len(r["words"]) * len(r["start"]) for r in ok))
    bad = ctx.judge("JLr.tla", cfg, recs, "lr")
    ctx.confirm("d_lr", bad, "lr", "JLr.tla", cfg)
