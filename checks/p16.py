"""P16: the lexer of a definition delivers the tokens the definition calls for."""
import vf, lang

def run(ctx):
    ctx.model("WeakSplit.tla", "WeakSplit_big.cfg" if ctx.thorough else "WeakSplit.cfg")
    vf.build("l_lang")
    rng = ctx.rng("tok")
    cases = [lang.token_case(rng) for _ in range(ctx.scale(2500, 40000))]
    recs = ctx.drive("l_lang", cases, "tok", timeout=20)
    ok = [r for r in recs if not r["crash"]]
    ctx.count("definitions", len(ok))
    ctx.count("texts_judged", sum(len(r["obs"]["toks"]) for r in ok))
    ctx.count("tokens_judged", sum(len(t) for r in ok for t in r["obs"]["toks"]))
    bad = ctx.judge("JTokens.tla", "JTokens.cfg", recs, "tok")
    ctx.confirm("l_lang", bad, "tok", "JTokens.tla", "JTokens.cfg")
