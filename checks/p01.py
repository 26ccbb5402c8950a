"""P01: a compiled regular expression recognises exactly the language it denotes."""
import vf, rxgen
from rxgen import codes, Gen

def words(rng, alpha, n):
    out = []
    for i in range(n):
        w = []
        for _ in range(rng.randint(1, 5)):
            c = rng.choice(alpha)
            if c > 0xffff:
                if rng.random() < .3: c = max(0x10000, min(0x10ffff, c + rng.choice([-1, 1, 1024, -1024])))
                w += [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)]
            else:
                w.append(c)
        out.append(w)
    return out

def case(ex, defs=(), ci=False, words=(), check=True, surr=False):
    return {"ex": [{"re": r if isinstance(r, list) else codes(r), "sym": i, "lit": bool(l)} for i, (r, l) in enumerate(ex)],
            "defs": [{"name": codes(n), "kind": k, "val": codes(v)} for n, k, v in defs],
            "ci": ci, "surr": surr, "words": list(words), "check": check}

def cases(ctx):
    out = []
    rng = ctx.rng("regex")
    ab = [97, 98]
    allw = [[97], [98], [97, 97], [97, 98], [98, 97], [98, 98], [97, 98, 97], [98, 97, 98], [97, 97, 98], [98, 98, 97], [97, 98, 98]]
    for n in range(1, ctx.scale(4, 6)):
        for s in rxgen.exhaustive("ab()|*+?", n):
            if n == 5 and ctx.scale(1, 0): continue
            out.append(case([(s, False)], words=allw))
    ctx.count("exhaustive_expressions", len(out))
    five = list(rxgen.exhaustive("ab()|*+?", ctx.scale(4, 6)))
    rng.shuffle(five)
    for s in five[:ctx.scale(900, 12000)]:
        out.append(case([(s, False)], words=allw))
    # random expressions over a richer syntax
    defsets = [(), (("d", "re", "[0-9]"), ("x", "re", "a|b"), ("l", "lit", "a|b*"), ("deep", "re", "{x}{d}+|c"))]
    alphas = [[97, 98, 99, 65, 48], [97, 122, 65, 90, 64, 91, 96, 123], [9, 10, 13, 32, 40, 42, 92, 91, 93, 45, 94, 123],
              [7, 27, 12, 124, 43, 63, 46, 125, 41], [0xff, 0x100, 0x101, 0xfffe, 0x3b1, 0x7f], [48, 49, 55, 57, 97, 102, 70],
              [0x10000, 0x103ff, 0x10400, 0x107ff, 0x10c05, 0x1f600, 0x10ffff, 97]]
    for i in range(ctx.scale(1100, 14000)):
        defs = rng.choice(defsets)
        alpha = rng.choice(alphas)
        ci = rng.random() < .2 and max(alpha) < 128
        g = Gen(rng, alpha, [d[0] for d in defs])
        k = rng.choice([1, 1, 1, 2, 3])
        surr = rng.random() < .3
        ex = []
        for j in range(k):
            if rng.random() < .12:
                ex.append(([g.char() for _ in range(rng.randint(1, 4))], True))
            else:
                ex.append((g.regex(rng.choice([1, 2, 2, 3])), False))
        wide = alpha + ([rng.randint(0, 127)] if rng.random() < .5 else [])
        if any(len(e[0]) > 60 for e in ex): continue
        # non-ASCII symbols fold into ASCII ones: complements are P06's business
        if ci and any('[^' in e[0] for e in ex if not e[1]): continue
        out.append(case(ex, defs, ci, words(rng, wide, 8), check=True, surr=surr))
    return out

def run(ctx):
    vf.build("d_regex")
    ctx.model("RegexMC.tla", "RegexMC.cfg" if not ctx.thorough else "RegexMC_big.cfg")
    ctx.model("NfaBuilder.tla", "NfaBuilder.cfg" if not ctx.thorough else "NfaBuilder_big.cfg")
    recs = ctx.drive("d_regex", cases(ctx), "regex")
    bad = ctx.judge("JRegex.tla", "JRegex.cfg", recs, "regex")
    ctx.confirm("d_regex", bad, "regex", "JRegex.tla", "JRegex.cfg")
