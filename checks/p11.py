"""P11: copies of a parser (and references to its stack) are independent of each other."""
import os
import vf, cfgen

def stack_case(rng):
    init = rng.choice([2, 2, 3, 5, 64])
    ops, depth = [], {0: 1}
    deep = rng.random() < .15
    v = 0
    for _ in range(rng.randint(5, 60) if not deep else rng.randint(150, 400)):
        h = rng.choice(list(depth)); r = rng.random()
        if r < (.75 if deep else .42): v += 1; ops.append(["push", h, v]); depth[h] += 1
        elif r < .85 and (deep or r < .62):
            ops.append(["pop", h, 0])
            if depth[h] > 1: depth[h] -= 1
        elif r < .78 or (deep and r < .9):
            g = rng.choice(range(8))
            if g not in depth: ops.append(["copy", h, g]); depth[g] = depth[h]
        elif r < .86 and len(depth) > 1:
            g = rng.choice(list(depth))
            ops.append(["set", h, g]); depth[g] = depth[h]
        elif len(depth) > 1:
            ops.append(["drop", h, 0]); del depth[h]
    return {"kind": "stack", "init": init, "ops": ops}

def parser_case(rng):
    while True:
        if rng.random() < .3:
            syms, ids = cfgen.text(rng.choice(cfgen.CLASSIC)); ts = [i + 1 for i, s in enumerate(syms) if s["k"] == "t"]
            ns = [i + 1 for i, s in enumerate(syms) if s["k"] == "n"]; start = ns[0]
        else:
            syms, ts, ns = cfgen.random(rng, ebnf=rng.choice([0, .2])); start = rng.choice(ns)
        w = cfgen.sentence(rng, syms, start, rng.randint(2, 12))
        if w and len(w) <= 18: break
    if rng.random() < .25: w = cfgen.mutate(rng, w, ts)
    live, ops = [0], []
    for _ in range(rng.randint(4, 110)):
        r = rng.random(); h = rng.choice(live)
        if r < .82: ops += [["step", h, 0]] * rng.choice([1, 1, 1, 2, 5])
        elif r < .92:
            g = rng.choice(range(8))
            if g not in live: ops.append(["copy", h, g]); live.append(g)
        elif len(live) > 1: ops.append(["drop", h, 0]); live.remove(h)
    for h in live:
        if rng.random() < .7: ops += [["step", h, 0]] * 60
    return {"kind": "parser", "syms": syms, "start": [start], "w": w, "ops": ops}

def run(ctx):
    # address sanitizer: a reference that outlives the arena it points into is an error even if nothing wrong is read
    asan = os.path.join(vf.BUILD, "asan")
    vf.build("d_copies", out=asan, cxxflags="-std=c++11 -O1 -g -w -fsanitize=address -fno-omit-frame-pointer")
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99"}
    ctx.model("ParserStack.tla", "ParserStack_big.cfg" if ctx.thorough else "ParserStack.cfg")
    exe = os.path.join(asan, "d_copies")
    rng = ctx.rng("copies")
    cases = [stack_case(rng) for _ in range(ctx.scale(1500, 20000))] + [parser_case(rng) for _ in range(ctx.scale(900, 12000))]
    rng.shuffle(cases)
    ctx.count("operations", sum(len(c["ops"]) for c in cases))
    recs = ctx.drive(exe, cases, "copies", env=env)
    bad = ctx.judge("JCopies.tla", "JCopies.cfg", recs, "copies")
    ctx.confirm(exe, bad, "copies", "JCopies.tla", "JCopies.cfg", env=env)
