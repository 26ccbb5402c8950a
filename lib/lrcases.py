"""Cases for the parser generator: random grammars and classic ones, with words to parse."""
import cfgen

def grammar_case(rng, sets=False, machine=True, ebnf=None, nev=12, long=0):
    syms, ts, ns = cfgen.random(rng, ebnf=rng.choice([0, .15, .3]) if ebnf is None else ebnf)
    n = {1: 6, 2: 4, 3: 3}[len(ts)]
    start = [rng.choice(ns)]
    if rng.random() < .25 and len(ns) > 1: start = rng.sample(ns, 2)
    words = []
    for _ in range(long):
        w = cfgen.sentence(rng, syms, rng.choice(start), rng.randint(4, 11))
        if w is not None and len(w) <= 16:
            if rng.random() < .35: w = cfgen.mutate(rng, w, ts)
            words.append(w)
    order = list(range(1, len(syms) + 1)); rng.shuffle(order)
    k = len(words)
    return {"syms": syms, "sets": sets, "order": order if sets else [], "start": start if machine else [],
            "words": words + cfgen.words(ts, n) if machine else [], "nev": k + nev, "maxlen": n, "full": True}

def classic_case(rng, src, nwords):
    syms, ids = cfgen.text(src)
    ts = [i + 1 for i, s in enumerate(syms) if s["k"] == "t"]; ns = [i + 1 for i, s in enumerate(syms) if s["k"] == "n"]
    start = [ns[0]] + ([rng.choice(ns[1:])] if len(ns) > 1 and rng.random() < .6 else [])
    words = [[]] + [[t] for t in ts]
    for _ in range(nwords):
        w = cfgen.sentence(rng, syms, rng.choice(start), rng.randint(2, 14))
        if w is None or len(w) > 20: continue
        if rng.random() < .4: w = cfgen.mutate(rng, w, ts)
        if w not in words: words.append(w)
    order = list(range(1, len(syms) + 1)); rng.shuffle(order)
    return {"syms": syms, "sets": False, "order": order, "start": start, "words": words, "nev": len(words), "maxlen": 1, "full": True}

def base_x(rng, syms, ts, ns, start, n=None, long=6, nev=10):
    n = n if n is not None else {1: 6, 2: 4, 3: 3}.get(len(ts), 2)
    words = []
    for _ in range(long):
        w = cfgen.sentence(rng, syms, start, rng.randint(3, 11))
        if w is not None and len(w) <= 14:
            if rng.random() < .3: w = cfgen.mutate(rng, w, ts)
            words.append(w)
    k = len(words)
    return {"syms": syms, "start": [start], "words": words + cfgen.words(ts, n), "nev": k + nev, "maxlen": n, "full": True,
            "prec": [], "weak": [], "ignored": [], "lr1": False, "copy": rng.random() < .5, "ops": []}

def ordered(rng, syms):
    """The same grammar with its terminals in another order of identifiers (the first terminal has identifier 0)."""
    perm = list(range(len(syms))); rng.shuffle(perm)          # new position -> old position
    new = {old + 1: i + 1 for i, old in enumerate(perm)}
    return [{"k": syms[o]["k"], "r": [[new[x] for x in r] for r in syms[o]["r"]]} for o in perm], new

def pick_grammar(rng, tt=(2, 3), classic=.25):
    if rng.random() < classic:
        syms, ids = cfgen.text(rng.choice(cfgen.CLASSIC))
        if rng.random() < .5: syms, new = ordered(rng, syms); start = new[[i + 1 for i, s in enumerate(syms) if s["k"] == "n"] and min(ids[h] for h in ids if syms[new[ids[h]] - 1]["k"] == "n")]
        else: start = next(i + 1 for i, s in enumerate(syms) if s["k"] == "n")
        ts = [i + 1 for i, s in enumerate(syms) if s["k"] == "t"]; ns = [i + 1 for i, s in enumerate(syms) if s["k"] == "n"]
        return syms, ts, ns, start
    syms, ts, ns = cfgen.random(rng, tt=tt, ebnf=rng.choice([0, .15, .3]), maxrules=2)
    return syms, ts, ns, rng.choice(ns)

def ignored_case(rng):
    syms, ts, ns, start = pick_grammar(rng)
    used = {x for s in syms for r in s["r"] for x in r}
    if rng.random() < .5:   # a symbol the grammar does not use
        syms.append({"k": "t", "r": []}); ign = [len(syms)]; ts = ts + ign
        if rng.random() < .4:
            perm = [len(syms) - 1] + list(range(len(syms) - 1)); new = {o + 1: i + 1 for i, o in enumerate(perm)}
            syms = [{"k": syms[o]["k"], "r": [[new[x] for x in r] for r in syms[o]["r"]]} for o in perm]
            ign = [1]; ts = [new[t] for t in ts]; start = new[start]
    else:
        ign = rng.sample(ts, rng.choice([1, 1, min(2, len(ts))]))
    c = base_x(rng, syms, ts, ns, start)
    c["ignored"] = ign
    k = c["nev"] - 10
    for w in c["words"][:k]:
        for _ in range(rng.randint(0, 3)): w.insert(rng.randint(0, len(w)), rng.choice(ign))
    return c

def weak_case(rng):
    syms, ts, ns, start = pick_grammar(rng, (2, 4), .45)
    if len(ts) < 2 or rng.random() < .25:
        syms.append({"k": "t", "r": []}); ts = ts + [len(syms)]
    c = base_x(rng, syms, ts, ns, start, long=14)
    sh = ts[:]; rng.shuffle(sh)
    strong = sh[0]; wk = sh[1:1 + rng.choice([1, 1, 2])]
    c["weak"] = [[strong, wk]]
    if len(sh) > 3 and rng.random() < .2: c["weak"].append([sh[-1], [sh[-2]]]) if sh[-2] not in wk else None
    k = c["nev"] - 10
    for w in c["words"][:k]:
        for i in range(len(w)):
            if w[i] == strong and rng.random() < .5: w[i] = rng.choice(wk)
    return c

def prec_case(rng):
    if rng.random() < .5:
        syms, ts, ns, start = pick_grammar(rng, (2, 4))
        c = base_x(rng, syms, ts, ns, start)
        c["prec"] = [[t, rng.randint(1, 3), rng.choice(["left", "right", "non"])] for t in rng.sample(ts, rng.randint(1, len(ts)))]
        return c
    nb, nu, np_ = rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 1)
    ops = [("b", "o%d" % i) for i in range(nb)] + [("u", "u%d" % i) for i in range(nu)] + [("p", "p%d" % i) for i in range(np_)]
    alts = [{"b": "E %s E", "u": "%s E", "p": "E %s"}[k] % o for k, o in ops] + ["id"]
    if rng.random() < .6: alts.append("lp E rp")
    rng.shuffle(alts)
    syms, ids = cfgen.text("E: " + " | ".join(alts))
    if rng.random() < .5: syms, new = ordered(rng, syms); ids = {h: new[i] for h, i in ids.items()}
    ts = [i + 1 for i, s in enumerate(syms) if s["k"] == "t"]
    c = base_x(rng, syms, ts, [ids["E"]], ids["E"], n=1, long=14)
    levels = {}
    for _, o in ops:
        l = rng.randint(1, 3)
        if l not in levels or rng.random() < .15: levels[l] = rng.choice(["left", "right", "non"])
        c["prec"].append([ids[o], l, levels[l]])
    c["ops"] = [[r, x] for r in syms[ids["E"] - 1]["r"] for x in r if any(x == ids[o] for _, o in ops)]
    return c

def guard_case(rng):
    """A grammar with guards in it.  Left out: guards that could look for themselves, or be read twice in a row, without end."""
    while True:
        syms, ts, ns = cfgen.random(rng, nt=(1, 3), tt=(2, 3), ebnf=rng.choice([0, 0, .15]), maxrules=3)
        start = rng.choice(ns)
        atoms = ts * 3 + ns
        for g in range(rng.choice([1, 1, 2, 2, 3])):
            body = [rng.choice(atoms) for _ in range(rng.choice([1, 2, 2, 3]))]
            gs = [i + 1 for i, s in enumerate(syms) if s["k"] == "grd"]
            if gs and rng.random() < .3: body.insert(rng.randint(0, len(body) - 1), rng.choice(gs))
            if any(s["k"] == "grd" and s["r"] == [body] for s in syms): continue
            syms.append({"k": "grd", "r": [body]})
        gs = [i + 1 for i, s in enumerate(syms) if s["k"] == "grd"]
        used = False
        for n in ns:
            for r in syms[n - 1]["r"]:
                if rng.random() < .4: r.insert(0 if rng.random() < .6 else rng.randint(0, len(r)), rng.choice(gs)); used = True
            if rng.random() < .3 and len(syms[n - 1]["r"]) < 4: syms[n - 1]["r"].append([rng.choice(gs)] + [rng.choice(atoms) for _ in range(rng.randint(0, 2))]); used = True
            rs = []
            for r in syms[n - 1]["r"]:
                if r not in rs: rs.append(r)
            syms[n - 1]["r"] = rs
        if used and cfgen.guards_end(syms): break
    c = base_x(rng, syms, ts, ns, start, long=8)
    return c
