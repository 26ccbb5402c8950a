"""Files and options for the command line tool, written down from the description that spec/Tool.tla takes."""
GRAMMARS = {
    "plain": ("abc", "<S> = a <S> b | c  <T> = c"),
    "unused": ("abcz", "<S> = a <S> b | c  <T> = c"),
    "sr": ("abc", "<S> = <S> a <S> | c  <T> = c b"),
    "rr": ("abc", "<S> = <X> | <Y>  <X> = c  <Y> = c  <T> = c a b"),
    "lr1": ("abcde", "<S> = a <X> d | b <Y> d | a <Y> e | b <X> e  <X> = c  <Y> = c  <T> = c"),
    "both": ("abc", "<S> = <S> a <S> | <X> | <Y>  <X> = c  <Y> = c  <T> = c b"),
    "undef": ("abc", "<S> = a b <Nope>  <T> = c"),
}
KINDS = list(GRAMMARS)

def language(l):
    syms, g = GRAMMARS[l["kind"]]
    return "\n" * l["lines"] + "language %s {\n  lexer { %s }\n  ignore { ws = /[ \\n]+/ }\n  grammar { %s }\n}\n" % (l["name"], " ".join('%s = "%s"' % (x, x) for x in syms), "\n" * (l["lines"] // 2) + " " * l["lines"] + g)

# where the things that are reported stand
MARKS = {"UNUSED_TERMINAL_SYMBOL": {"unused": ['z = "']}, "CONFLICT_SHIFT_REDUCE": {"sr": ["<S> a <S>"], "both": ["<S> a <S>"]},
         "CONFLICT_REDUCE_REDUCE": {k: ["c  <Y>", "c  <T>"] for k in ("rr", "both", "lr1")}, "UNDEFINED_NONTERMINAL": {"undef": ["<Nope>"]}}
def marks(text, at, l):
    r = []
    for code, kinds in MARKS.items():
        for m in kinds.get(l["kind"], []):
            i = text.index(m, at); r.append([code, text.count("\n", 0, i) + 1, i - text.rfind("\n", 0, i)])
    return r

def texts(f, d):
    t = ""
    if f["missing"]: t += 'import "none.tp"\n'
    if f["imports"]: t += 'import "m.tp"\n'
    rest = [language(l) for l in f["langs"]]
    rest += ["parser %s : %s { %s }\n" % (p["name"], p["lang"], " ".join(p["starts"])) for p in f["parsers"]]
    rest += ['test %s { %s %s "%s" }\n' % (x["lang"], x["start"], "=" if x["want"] else "!=", " ".join(x["text"])) for x in f["tests"]]
    t += "".join(rest)
    for l, block in zip(f["langs"], rest): l["marks"] = marks(t, t.index(block), l)
    if not f["ok"]: t += "language Z { grammar { <S> ="
    m = "".join(language(l) for l in f["imports"])
    for l in f["imports"]: l["marks"] = marks(m, m.index(language(l)), l)
    r = {}
    if f["present"]: r[d + "g.tp"] = t
    if f["imports"]: r[d + "m.tp"] = m
    return r

def args(rng, o):
    g = o["dir"] + "g.tp"; out = o["out"]
    groups = [["--show-error-codes"]]
    if out and rng.random() < .3: groups.append([g, out]); out = ""
    else: groups.append([g] if rng.random() < .5 else [rng.choice(["-i", "--input-file"]), g])
    def opt(short, long, v): groups.append([rng.choice([short, long]), v] if rng.random() < .7 else ["%s=%s" % (long, v)])
    if o["L"]: opt("-L", "--compile-language", o["L"])
    if o["C"]: opt("-C", "--class-name", o["C"])
    if o["N"]: opt("-N", "--namespace-name", o["N"])
    if o["T"]: opt("-T", "--output-language", o["T"])
    if out: opt("-o", "--output-file", out)
    flags = {"test": "--test", "runtests": "--run-tests", "noconf": "--no-conflicts", "allow": "--allow-reduce-conflicts", "lr1": "--enable-lr1-resolver", "quiet": "--suppress-warnings",
             "silent": "--silent", "verbose": "--verbose", "show": "--show-parser", "bad": "--bogus"}
    for k, v in flags.items():
        if o[k]: groups.append([v])
    rng.shuffle(groups)
    # the order of the start symbols matters
    for s in o["S"]: groups.append(["-S", s])
    return [x for g in groups for x in g]

def words(rng, kind):
    h = rng.choice([0, 0, 1, 2])
    return rng.choice([["c"], ["a"] * h + ["c"] + ["b"] * h, ["c", "a", "c"], ["c", "b"], ["c", "a", "b"], ["a", "c", "d"], ["b", "c", "e"], ["b", "c", "d"], [], ["a"], ["c", "c"], ["%"], ["c", "%"], ["a", "c"], ["c"] + ["a", "c"] * h])

def case(rng):
    p = lambda x: rng.random() < x
    kind = lambda bad=.04: "undef" if p(bad) else rng.choice(["plain"] * 4 + ["unused", "sr", "rr", "lr1", "both"])
    names = rng.sample(["A", "B", "Cd", "M"], 4)
    langs = [{"name": names[i], "kind": kind(), "lines": rng.randint(0, 5)} for i in range(rng.choice([1] * 6 + [2, 2, 3]) if p(.97) else 0)]
    imports = [{"name": names[3] if i == 0 else "Q", "kind": kind(.02), "lines": rng.randint(0, 5)} for i in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    if imports and langs and p(.04): imports[0]["name"] = langs[0]["name"]
    if len(langs) > 1 and p(.04): langs[1]["name"] = langs[0]["name"]
    all = langs + imports
    anyname = lambda: rng.choice([l["name"] for l in all]) if all and p(.93) else "Nowhere"
    starts = lambda: rng.choice([["<S>"]] * 5 + [["<T>"], ["<T>"], ["<S>", "<T>"], ["<T>", "<S>"], ["<N>"], ["<S>", "<N>"]])
    f = {"present": p(.97), "ok": p(.97), "langs": langs, "imports": imports, "missing": p(.04),
         "parsers": [{"name": "P%d" % i, "lang": anyname(), "starts": starts()} for i in range(rng.choice([0, 0, 0, 1, 1, 1, 1, 2, 3]))], "tests": []}
    if len({l["name"] for l in all}) == len(all) and not any(l["kind"] == "undef" for l in all):
        good = [l for l in all if l["kind"] in ("plain", "unused", "sr")]
        for _ in range(rng.choice([0, 1, 1, 2]) if good else 0):
            l = rng.choice(good)
            f["tests"].append({"lang": l["name"], "start": rng.choice(["<S>", "<S>", "<T>"]), "text": [x for x in words(rng, l["kind"]) if x != "%"], "want": p(.7)})
    o = {"dir": rng.choice(["", "", "d/"]), "L": anyname() if p(.4) else "", "C": rng.choice(["", "", "Klass"]), "N": rng.choice(["", "", "space"]), "T": rng.choice([""] * 5 + ["cplusplus", "test", "test-trace", "bogus"]),
         "out": rng.choice(["", "", "x", "ok/x", "nodir/x", "full"]), "S": starts() if p(.5) else [], "test": p(.25), "runtests": p(.25), "noconf": p(.2), "allow": p(.35), "lr1": p(.4),
         "quiet": p(.25), "silent": p(.25), "verbose": p(.25), "show": p(.15), "bad": p(.01), "text": words(rng, "")}
    # which of the two errors is the last (and so the exit code) is left open
    if len({l["name"] for l in all}) != len(all): f["missing"] = False
    # what tests of languages with errors do is among the known findings of P20
    if o["runtests"] and o["noconf"]: f["tests"] = [t for t in f["tests"] if not any(l["name"] == t["lang"] and l["kind"] == "sr" for l in all)]
    return {"f": f, "o": o, "texts": texts(f, o["dir"]), "args": args(rng, o), "stdin": " ".join(o["text"])}
