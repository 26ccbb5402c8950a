"""P03: lexemes tile the input, each the longest match with the right symbol and position."""
import vf, rxgen
from rxgen import codes, Gen

NL = [10, 11, 12, 13, 0x85, 0x2028, 0x2029]
ALPHAS = [[97, 98, 99], [97, 98, 10, 13], [97, 10, 13, 32, 11, 12], [48, 49, 46, 45, 101], [0x85, 0x2028, 0x2029, 10, 13, 97],
          [97, 0xe9, 0xff, 0x80, 0xfd, 0xfe], [0x3b1, 0x3b2, 0xffff, 0x100, 97], [0x10000, 0x1f600, 0x103ff, 97, 98], [60, 61, 62, 43]]

def u16(c): return [c] if c < 0x10000 else [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)]

def one(rng):
    alpha = rng.choice(ALPHAS)
    simple = rng.random() < .6
    two = not simple and rng.random() < .6
    defs = [] if simple or rng.random() < .7 else [("d", "re", "[0-9]"), ("l", "lit", "a|b*")]
    g = Gen(rng, alpha, [d[0] for d in defs])
    ex = []
    n = rng.randint(1, 5)
    syms = rng.sample(range(0, 9), n)
    if rng.random() < .2: syms = [rng.randrange(3) for _ in range(n)]
    for i in range(n):
        lit = not simple and rng.random() < .3
        if rng.random() < .35 or lit:
            r = [rng.choice(alpha) for _ in range(rng.randint(1, 4))]
            if not lit:
                r = [x for ch in r for x in ([92, ch] if ch in (46, 40, 41, 42, 43, 63, 91, 93, 123, 125, 124, 92) else [ch])]
        else:
            r = g.regex(rng.choice([1, 2, 2, 3]))
            if len(r) > 40: r = "a"
            r = codes(r)
        ex.append({"re": r, "sym": syms[i], "lit": lit, "start": rng.randint(0, 1) if two else 0})
    inputs = []
    for _ in range(5):
        w = []
        for _ in range(rng.randint(0, 12)):
            r = rng.random()
            if r < .1: w += u16(rng.choice(NL))
            elif r < .14: w += [13, 10]
            elif r < .18: w += u16(rng.randint(32, 126))
            else: w += u16(rng.choice(alpha))
        inputs.append(w)
    return {"ex": ex, "defs": [{"name": codes(a), "kind": k, "val": codes(v)} for a, k, v in defs], "inputs": inputs,
            "simple": simple, "pre": rng.random() < .5, "firstaction": rng.random() < .5,
            "sched": [rng.randint(0, 1) for _ in range(6)] if two else []}

def run(ctx):
    vf.build("d_lexer")
    ctx.model("Lexer.tla", "Lexer_big.cfg" if ctx.thorough else "Lexer.cfg")
    ctx.model("Lexer.tla", "Lexer_live.cfg")
    rng = ctx.rng("lexer")
    cases = [one(rng) for _ in range(ctx.scale(900, 14000))]
    ctx.count("inputs_lexed", sum(len(c["inputs"]) for c in cases))
    recs = ctx.drive("d_lexer", cases, "lexer")
    ctx.count("lexer_runs", sum(len(r["obs"].get("runs", [])) * len(r["inputs"]) for r in recs))
    bad = ctx.judge("JLexer.tla", "JLexer.cfg", recs, "lexer")
    ctx.confirm("d_lexer", bad, "lexer", "JLexer.tla", "JLexer.cfg")
