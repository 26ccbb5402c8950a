"""P04: symbol sets are sets; splitting them is a partition; tables look symbols up in it."""
import vf

MAX = 0x7fffffff
POOLS = [list(range(0, 9)), [0, 1, 2, 254, 255, 256, 257, 511, 512, 513], [0, 0xff, 0x100, 0xfeff, 0xff00, 0xffff, 0x10000, 0x10001],
         [0, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x1000001, 0x7ffffffe, MAX], [65, 90, 91, 97, 122, 123, 48, 57, 58]]

def one(rng):
    pool = sorted(set(rng.choice(POOLS)))
    k = rng.randint(2, 4)
    ops = []
    for i in range(rng.randint(2, 14)):
        op = rng.choice(["or"] * 6 + ["not"] * 4 + ["and", "inv", "inv", "orS", "orS", "notS", "andS", "andS", "copy", "range"])
        lo, hi = sorted(rng.sample(pool, 2))
        if rng.random() < .2: hi = lo + 1
        ops.append({"op": op, "dst": rng.randint(1, k), "src": rng.randint(1, k), "lo": lo, "hi": hi, "alt": rng.random() < .3})
    pr = {0, 1}
    for o in ops:
        for x in (o["lo"] - 1, o["lo"], o["lo"] + 1, o["hi"] - 1, o["hi"], o["hi"] + 1): pr.add(x)
    probe = sorted(x for x in pr if 0 <= x < MAX)
    if len(probe) > 20: probe = sorted(rng.sample(probe, 20))
    return {"k": k, "ops": ops, "probe": probe}

def exhaustive(n):
    """every history of two operations after a first one, on four symbols"""
    rs = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    acts = [("or", a, b) for a, b in rs] + [("not", a, b) for a, b in rs] + [("inv", 0, 1)]
    for a, b in rs:
        for x in acts:
            for y in acts:
                yield {"k": 2, "probe": list(range(n + 2)), "ops":
                       [{"op": "range", "dst": 1, "src": 1, "lo": a, "hi": b, "alt": False}] +
                       [{"op": o, "dst": 1, "src": 1, "lo": l, "hi": h, "alt": False} for o, l, h in (x, y)] +
                       [{"op": "or", "dst": 2, "src": 1, "lo": 1, "hi": 3, "alt": False}]}

def run(ctx):
    vf.build("d_syms")
    ctx.model("SymbolSet.tla", "SymbolSet_big.cfg" if ctx.thorough else "SymbolSet.cfg")
    ctx.model("Dedup.tla", "Dedup.cfg")
    if ctx.thorough: ctx.model("Dedup.tla", "Dedup_big.cfg")
    ex = list(exhaustive(ctx.scale(4, 6)))
    ctx.count("exhaustive_histories", len(ex))
    rng = ctx.rng("syms")
    cases = ex + [one(rng) for _ in range(ctx.scale(3000, 40000))]
    recs = ctx.drive("d_syms", cases, "syms")
    bad = ctx.judge("JSymbols.tla", "JSymbols.cfg", recs, "syms")
    ctx.confirm("d_syms", bad, "syms", "JSymbols.tla", "JSymbols.cfg")
