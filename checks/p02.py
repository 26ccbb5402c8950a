"""P02: automaton transformations and table encodings preserve behaviour."""
import vf

POOLS = [[97, 98, 99, 100, 101], [0, 1, 97, 255, 256, 257, 511, 512], [0xff, 0x100, 0x200, 0x1000, 0xfffe, 0xffff],
         [48, 57, 65, 90, 97, 122]]

def rand_ranges(rng, pool, wide):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        a = rng.choice(pool)
        r = rng.random()
        if r < .4: out.append([a, a + 1])
        elif r < .85:
            b = rng.choice(pool)
            lo, hi = min(a, b), max(a, b)
            out.append([lo, hi + rng.choice([0, 1])] if hi > lo else [lo, lo + 1])
        elif r < .95 and wide: out.append([a, 0x7fffffff])
        else: out.append([0, a + 1])
    return out

def one(rng):
    pool = list(rng.choice(POOLS))
    wide = rng.random() < .3
    if wide: pool += rng.sample([0x10000, 0x10100, 0x1ffff, 0x20000, 0x10ffff, 0x1000000, 0x7ffffffe], 2)
    n = rng.randint(1, 6)
    tr = []
    for _ in range(rng.randint(n, 2 * n + 3)):
        f, t = rng.randrange(n), rng.randrange(n)
        if rng.random() < .18: tr.append([f, t, []])
        else: tr.append([f, t, rand_ranges(rng, pool, wide)])
    acc = []
    eager = rng.random() < .15
    for s in range(n):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            acc.append([s, rng.randrange(4), 1 if eager and rng.random() < .4 else 0])
    init = [0]
    if rng.random() < .3 and n > 1: init = rng.sample(range(n), 2)
    b = {0, 65535}
    for _, _, rs in tr:
        for lo, hi in rs:
            for x in (lo - 1, lo, hi - 1, hi): b.add(x)
    w = sorted(x for x in b if 0 <= x < 0x7fffffff)
    p = [x for x in w if x < 65536]
    rng.shuffle(p)
    rng.shuffle(w)
    return {"n": n, "tr": tr, "acc": acc, "init": init, "probe": sorted(p[:14]), "wide": sorted(w[:14])}

def run(ctx):
    vf.build("d_auto")
    ctx.model("Minimise.tla", "Minimise_big.cfg" if ctx.thorough else "Minimise.cfg")
    rng = ctx.rng("auto")
    cases = [one(rng) for _ in range(ctx.scale(1500, 20000))]
    recs = ctx.drive("d_auto", cases, "auto")
    bad = ctx.judge("JAutomata.tla", "JAutomata.cfg", recs, "auto")
    ctx.confirm("d_auto", bad, "auto", "JAutomata.tla", "JAutomata.cfg")
