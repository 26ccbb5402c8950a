"""P17: the parser of a definition reads texts as the definition calls for."""
import vf, lang

def run(ctx):
    ctx.model("WeakSplit.tla", "WeakSplit_big.cfg" if ctx.thorough else "WeakSplit.cfg")
    vf.build("l_lang")
    rng = ctx.rng("parse")
    cases = [lang.parse_case(rng) for _ in range(ctx.scale(3500, 30000))]
    recs = ctx.drive("l_lang", cases, "parse", timeout=20)
    ok = [r for r in recs if not r["crash"]]
    ctx.count("definitions", len(ok))
    free = [r for r in ok if r["obs"]["stage"] == "run" and not r["obs"]["conf"]]
    ctx.count("definitions_without_conflicts", len(free))
    ctx.count("texts_parsed", sum(len(r["obs"]["runs"]) for r in free))
    ctx.count("texts_accepted", sum(1 for r in free for x in r["obs"]["runs"] if x["res"] == 1))
    bad = ctx.judge("JLang.tla", "JLang.cfg", recs, "parse")
    ctx.confirm("l_lang", bad, "parse", "JLang.tla", "JLang.cfg")
