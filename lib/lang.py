"""Random language definitions: the abstract syntax the specification reads, and the text of the definition file."""
import rxgen, cfgen

def codes(s): return [ord(c) for c in s]

class Writer:
    """Text with known lines."""
    def __init__(self): self.out, self.line = [], 0
    def put(self, s): self.out.append(s); self.line += s.count("\n")
    def text(self): return "".join(self.out)

class Rx(rxgen.Gen):
    """Regular expressions that can stand between slashes in a definition file."""
    def __init__(self, rng, alphabet, defs=(), neg=True): super().__init__(rng, alphabet, defs); self.neg = neg
    def set(self):
        s = super().set()
        while not self.neg and s.startswith("[^"): s = super().set()
        return s
    def regex(self, d=1):
        for _ in range(50):
            s = self.alt(d)
            if s and "/" not in s and s[0] not in "*" and len(s) < 30 and "||" not in s and not s.startswith("|") and not s.endswith("|") and "(|" not in s and "|)" not in s: return s
        return "a"

STR_ESC = {7: "\\a", 27: "\\e", 10: "\\n", 13: "\\r", 12: "\\f", 9: "\\t", 34: '\\"', 39: "\\'", 92: "\\\\"}
def quote(rng, s):
    """A literal as a character or a string; no backslash at the end."""
    def ch(c, q):
        if ord(c) in (10, 13, 12, 7, 27, 9): return STR_ESC[ord(c)]
        if c == q or c == "\\": return "\\" + c
        if not c.isalnum() and rng.random() < .15: return "\\" + c
        return c
    if len(s) == 1 and rng.random() < .6: return "'" + ch(s, "'") + "'"
    return '"' + "".join(ch(c, '"') for c in s) + '"'

def definition(rng, name, op, kind, val, spelled=None):
    """kind: re, lit (quoted) or word (the name stands for itself)"""
    return {"name": name, "op": op, "kind": kind, "val": val, "q": spelled}

def put_def(rng, w, d):
    """-> the record of the specification"""
    w.put("    "); line = w.line
    if d["kind"] == "word": w.put(d["name"])
    else:
        body = "/" + d["val"] + "/" if d["kind"] == "re" else d["q"]
        sp = rng.choice(["", " "])
        if d["op"] == "replace": w.put("replace " + d["name"] + sp + "=" + sp + body)
        else: w.put(d["name"] + sp + d["op"] + sp + body)
    w.put(rng.choice(["\n", "\n", " // x = /y/\n", " /* z */\n"]))
    return {"name": codes(d["name"]), "op": d["op"], "kind": "re" if d["kind"] == "re" else "lit", "val": codes(d["name"] if d["kind"] == "word" else d["val"]), "line": line}

def put_block(rng, w, b):
    mods = []
    if b["weak"]: mods.append("weak")
    if b["ci"]: mods.append("case insensitive")
    if b["cs"]: mods.append("case sensitive")
    rng.shuffle(mods)
    w.put("  " + " ".join(mods + [{"symbols": "lexer-symbols"}.get(b["k"], b["k"])]) + rng.choice([" {\n", "\n{\n", "{\n"]))
    defs = [put_def(rng, w, d) for d in b["defs"]]
    w.put("  }\n")
    return {"k": b["k"], "weak": b["weak"], "ci": b["ci"], "cs": b["cs"], "defs": defs, "nts": [], "items": []}

def block(k, weak=False, ci=False, cs=False): return {"k": k, "weak": weak, "ci": ci, "cs": cs, "defs": []}

# --- grammars: trees of items -> interned table and text
class Gram:
    def __init__(self):
        self.t = cfgen.Table(); self.names = []; self.id = {}
    def term(self, name):
        if ("t", name) not in self.id: self.id[("t", name)] = self.t.add("t"); self.names.append(name)
        return self.id[("t", name)]
    def nt(self, name):
        if ("n", name) not in self.id: self.id[("n", name)] = self.t.add("n"); self.names.append("<" + name + ">")
        return self.id[("n", name)]
    def item(self, k, r):
        n = len(self.t.syms); i = self.t.item(k, r)
        if len(self.t.syms) > n: self.names.append("")
        return i
    def rhs(self, items):
        out = []
        for x in items:
            k = x[0]
            if k in "tn": out.append(self.term(x[1]) if k == "t" else self.nt(x[1]))
            elif k == "grp": out += self.rhs(x[1])
            elif k == "alt":
                def nest(rs): return self.item("alt", [self.rhs(rs[0]), self.rhs(rs[1]) if len(rs) == 2 else [nest(rs[1:])]])
                out.append(nest(x[1]))
            else: out.append(self.item(k, [self.rhs(x[1])]))
        return out

INNER = {}   # names that items have within groups
def render(rng, items, inner=False):
    out = []
    for x in items:
        k = x[0]; a = x[2] if len(x) > 2 else "[%s]" % INNER[x[:2]] if inner and k in "tn" and x[:2] in INNER else ""
        if k == "t": s = x[1]
        elif k == "n": s = "<" + x[1] + ">"
        elif k == "grp": s = "(" + render(rng, x[1], True) + ")"
        elif k == "alt": s = "(" + " | ".join(render(rng, r, inner is not None) for r in x[1]) + ")"
        elif k == "grd": s = "[=> " + (("[can-clash] ") if rng.random() < .1 else "") + (" | ".join(render(rng, r, None) for r in x[1][0][1]) if len(x[1]) == 1 and x[1][0][0] == "alt" else render(rng, x[1], None)) + "]"
        else:
            q = {"opt": "?", "rep": "+", "star": "*"}[k]
            one = len(x[1]) == 1 and x[1][0][0] in "tn" and len(x[1][0]) < 3
            if one and rng.random() < .6 and x[1][0] not in INNER: s = render(rng, x[1]) + q
            elif len(x[1]) == 1 and x[1][0][0] == "alt": s = render(rng, x[1], inner is not None) + q
            else: s = "(" + render(rng, x[1], inner is not None) + ")" + q
        out.append(s + a)
    return " ".join(out)

def literals(items):
    for x in items:
        if x[0] == "t": yield x[1]
        elif x[0] == "alt":
            for r in x[1]: yield from literals(r)
        elif x[0] != "n": yield from literals(x[1])

def dequote(s):
    out, i = "", 1
    while i < len(s) - 1:
        if s[i] == "\\": i += 1; out += {"a": "\a", "e": "\x1b", "n": "\n", "r": "\r", "f": "\f", "t": "\t"}.get(s[i], s[i])
        else: out += s[i]
        i += 1
    return out

def put_grammar(rng, w, g, nts, lits):
    """nts: [name, op, [production]]; lits: where terminals are first met -> block of the specification; appends to lits"""
    w.put("  grammar {\n")
    recs = []
    for name, op, prods in nts:
        w.put("    "); line = w.line; first = line
        w.put(("replace <%s> =" % name) if op == "replace" else "<%s> %s" % (name, op))
        rs, plines = [], []
        for i, p in enumerate(prods):
            if i: w.put("\n      |")
            plines.append(w.line)
            for l in literals(p): lits.append({"name": codes(l), "val": codes(dequote(l) if l[0] in "'\"" else l), "quoted": l[0] in "'\"", "line": w.line})
            w.put(" " + render(rng, p)); rs.append(g.rhs(p))
        w.put("\n")
        recs.append({"s": g.nt(name), "op": op, "prods": rs, "plines": plines, "line": line})
    w.put("  }\n")
    return {"k": "grammar", "weak": False, "ci": False, "cs": False, "defs": [], "nts": recs, "items": []}

def finish(g, langs, w, target, start, inputs, opts=(), **more):
    syms = [{"k": s["k"], "r": s["r"]} for s in g.t.syms]
    c = {"root": codes("root.tp"), "files": [[codes("root.tp"), codes(w.text())]], "opts": [[codes(a), codes(b)] for a, b in opts],
         "target": codes(target), "start": start, "names": [codes(n) for n in g.names], "syms": syms, "langs": langs, "inputs": inputs, "attrs": []}
    c.update(more)
    for l in c["langs"]: l.setdefault("file", "root.tp"); l.setdefault("line", 0)
    return c

# --- tokens
def token_case(rng):
    ci_used = rng.random() < .4
    alpha = [ord(c) for c in rng.choice(["ab", "abA", "ab0", "abAB0", "ab+ "])]
    w = Writer(); g = Gram(); langs = []
    n = rng.choice([1, 1, 1, 2, 2, 3])
    exprs, terms = [], {}           # terms: name -> (kind, weak)
    names = ["Base", "Mid", "Top"][-n:] if n < 3 else ["Base", "Mid", "Top"]
    order = list(range(n))
    for li in order:
        lname = names[li]
        w.put(rng.choice(["", "\n", "// a language\n"]) + "language %s%s {\n" % (lname, "" if li == 0 else " : " + names[li - 1]))
        blocks = []
        plan = []
        # sub-expressions
        if rng.random() < .6:
            b = block("symbols", ci=ci_used and rng.random() < .4, cs=rng.random() < .2)
            if b["ci"]: b["cs"] = False
            for _ in range(rng.randint(1, 3)):
                x = rng.random()
                if exprs and x < .25: name, op = rng.choice(exprs), rng.choice(["|=", "replace"])
                else: name, op = "e%d" % len(exprs), "="
                usable = exprs[:exprs.index(name)] if name in exprs else list(exprs)
                if rng.random() < .2: v = "".join(chr(rng.choice(alpha)) for _ in range(rng.randint(1, 2))); d = definition(rng, name, op, "lit", v, quote(rng, v))
                else: d = definition(rng, name, op, "re", Rx(rng, alpha, usable, not ci_used).regex())
                if name not in exprs: exprs.append(name)
                b["defs"].append(d)
            plan.append(b)
        tokblocks = []
        for _ in range(rng.randint(1, 4) if li == 0 else rng.randint(0, 3)):
            k = rng.choice(["keywords", "lexer", "lexer", "ignore"])
            b = block(k, weak=k != "ignore" and rng.random() < .35, ci=k != "ignore" and ci_used and rng.random() < .4, cs=k != "ignore" and rng.random() < .15)
            if b["ci"]: b["cs"] = False
            tokblocks.append(b)
        # definitions are read weak blocks first, then keywords, lexer, ignore: what is added to must be read earlier
        rank = lambda b: (not b["weak"], ["keywords", "lexer", "ignore"].index(b["k"]))
        for b in sorted(tokblocks, key=rank):
            for _ in range(rng.randint(1, 3)):
                same = [t for t in terms if terms[t] == (b["k"], b["weak"])]
                if same and rng.random() < .3: name, op = rng.choice(same), rng.choice(["|=", "|=", "replace"])
                else: name, op = None, "="
                if name is None and b["k"] != "lexer" and rng.random() < .5:
                    name = "".join(chr(c) for c in (rng.choice([x for x in alpha if chr(x).isalpha()]) for _ in range(rng.randint(1, 3))))
                    if name in terms: continue
                    d = definition(rng, name, "=", "word", name)
                else:
                    if name is None: name = "t%d" % len(terms)
                    if rng.random() < .3: v = "".join(chr(rng.choice(alpha)) for _ in range(rng.randint(1, 3))); d = definition(rng, name, op, "lit", v, quote(rng, v))
                    else: d = definition(rng, name, op, "re", Rx(rng, alpha, exprs, not ci_used).regex())
                terms.setdefault(name, (b["k"], b["weak"])); b["defs"].append(d)
        plan += tokblocks
        pos = rng.random() < .5
        rng.shuffle(plan)
        # duplicates of a block kind keep their order in the file: sort stable by the order they were made within a kind
        made = {id(b): i for i, b in enumerate(tokblocks)}
        seq = sorted([b for b in plan if id(b) in made], key=lambda b: made[id(b)])
        it = iter(seq); plan = [next(it) if id(b) in made else b for b in plan]
        lits = []
        for b in plan: blocks.append(put_block(rng, w, b))
        if li == n - 1 or rng.random() < .4:
            pool = list(terms) + ["'%s'" % chr(rng.choice([x for x in alpha])), '"%s"' % "".join(chr(rng.choice(alpha)) for _ in range(2))]
            prods = [[("t", rng.choice(pool))] + ([("t", rng.choice(pool))] if rng.random() < .3 else []) for _ in range(rng.randint(1, 3))]
            prods = [p for i, p in enumerate(prods) if p not in prods[:i]]
            if li == n - 1:
                # guards mention terminals too
                if rng.random() < .3: prods.append([("grd", [("t", rng.choice(pool))]), ("t", rng.choice(pool))])
            blocks.append(put_grammar(rng, w, g, [("S%d" % li, "=", prods)], lits))
        w.put("}\n")
        langs.append({"name": codes(lname), "inh": codes(names[li - 1]) if li else [], "blocks": blocks, "lits": lits})
    for t in terms: g.term(t)
    words = [codes(t) for t in terms if all(ord(c) in alpha for c in t)]
    inputs = []
    for _ in range(8):
        s = []
        for _ in range(rng.randint(1, 8)): s += rng.choice(words) if words and rng.random() < .3 else [rng.choice(alpha)] if rng.random() < .95 else [rng.choice([10, 0x7a, 0x263a])]
        inputs.append(s)
    inputs += [[a, b] for a in alpha for b in alpha][:16]
    return finish(g, langs, w, names[-1], [g.nt("S%d" % (n - 1))], inputs)

# --- parsers
SAMPLES = {"id": ["a", "b", "ab", "ca"], "num": ["0", "1", "10"], "nl": [";"], "ws": [" ", "  "], "op": ["+", "*"]}
def items_gen(rng, atoms, depth, n, ebnf, guard=0.0):
    out = []
    for _ in range(n):
        if depth > 0 and rng.random() < ebnf:
            k = rng.choice(["opt", "rep", "star", "alt", "alt", "grp"])
            if k == "alt": out.append(("alt", [items_gen(rng, atoms, depth - 1, rng.choice([0, 1, 1, 1, 2]), ebnf) for _ in range(rng.randint(2, 3))]))
            else: out.append((k, items_gen(rng, atoms, depth - 1, rng.randint(1, 2), ebnf)))
        elif guard and rng.random() < guard:
            b = items_gen(rng, atoms, 1, rng.randint(1, 2), .2)
            out.append(("grd", b if rng.random() < .7 else [("alt", [b, items_gen(rng, atoms, 0, 1, 0)])]))
        else: out.append(rng.choice(atoms))
    return out

def attr(rng, items, p):
    if NAMED: items = [x if x[0] not in ("t", "n", "opt", "rep", "star") or rng.random() > NAMED else x[:2] + ("[%s]" % rng.choice(["one", "two", "one", "x-y", "x_y", "id"]),) for x in items]
    return [x if x[0] != "t" or len(x) > 2 or rng.random() > p else ("t", x[1], rng.choice(["[conflict=shift]", "[conflict=reduce]", "[conflict = weak reduce]", "[conflict=shift]", "[x, conflict=shift]"])) for x in items]
NAMED = 0
WHAT = {"[conflict=shift]": "shift", "[conflict=reduce]": "reduce", "[conflict = weak reduce]": "weak", "[x, conflict=shift]": "shift"}

def sample(rng, samples, name):
    return rng.choice(samples[name])

def text_of(rng, g, samples, w):
    out = ""
    for t in w:
        s = sample(rng, samples, g.names[t - 1])
        if out and (out[-1].isalnum() and s[0].isalnum() or rng.random() < .25): out += " " if rng.random() < .97 else ""
        out += s
    if rng.random() < .1: out += " "
    return out

def loops(syms):
    """Some sentence has infinitely many derivations, or the stack can grow without reading."""
    P = {i + 1: cfgen.prods(syms, i + 1) for i, s in enumerate(syms) if s["k"] != "t"}
    nul = set(); more = True
    while more:
        more = False
        for a in P:
            if a not in nul and any(all(x in nul for x in r) for r in P[a]): nul.add(a); more = True
    left, hid, unit = {a: set() for a in P}, set(), {a: set() for a in P}
    for a in P:
        for r in P[a]:
            for i, x in enumerate(r):
                if x not in P: break
                left[a].add(x)
                if i: hid.add((a, x))
                if all(y in nul for y in r[i + 1:]): unit[a].add(x)
                if x not in nul: break
    def reach(g, a):
        seen, todo = set(), [a]
        while todo:
            for y in g[todo.pop()]:
                if y not in seen: seen.add(y); todo.append(y)
        return seen
    return any(a in reach(unit, a) for a in P) or any(x == a or a in reach(left, x) for a, x in hid)

NEWLINES = False
def parse_case(rng):
    while True:
        c = parse_case1(rng)
        if c: return c

def parse_case1(rng):
    w = Writer(); g = Gram(); samples = dict(SAMPLES); decl = {}
    strong = ["id"] + (["num"] if rng.random() < .5 else []) + (["op"] if rng.random() < .3 else [])
    kw = rng.sample(["if", "ab", "ba", "cc"], rng.randint(0, 2))
    wkw = rng.sample([x for x in ["b", "ac", "bb", "aa"]], rng.randint(0, 2))
    weakre = rng.random() < .3
    ign = ["ws"] + (["nl"] if rng.random() < .5 else [])
    lits = rng.sample(["'+'", "'*'", '"=="', "'('", "')'", "';'", '"bc"', "cab"], rng.randint(0, 4))
    for k in kw + wkw: samples[k] = [k]
    for l in lits: samples[l] = [dequote(l) if l[0] in "'\"" else l]
    samples["wk"] = ["a", "0"]
    blocks = []
    bl = {"lexer": block("lexer"), "keywords": block("keywords"), "weak": block("keywords", weak=True), "weaklex": block("lexer", weak=True), "ignore": block("ignore")}
    bl["lexer"]["defs"] = [definition(rng, s, "=", "re", {"id": "[a-c]+", "num": "[0-9]+", "op": "[+*]"}[s]) for s in strong]
    bl["keywords"]["defs"] = [definition(rng, k, "=", "word", k) for k in kw]
    bl["weak"]["defs"] = [definition(rng, k, "=", "word", k) for k in wkw]
    if weakre: bl["weaklex"]["defs"] = [definition(rng, "wk", "=", "re", "a|0")]
    bl["ignore"]["defs"] = [definition(rng, s, "=", "re", {"ws": "[ \\n]+" if NEWLINES else " +", "nl": ";"}[s]) for s in ign]
    plan = [b for b in bl.values() if b["defs"]]; rng.shuffle(plan)
    terms = strong + kw + wkw + (["wk"] if weakre else []) + lits + (["nl"] if "nl" in ign and rng.random() < .4 else [])
    g_order = terms + ign; rng.shuffle(g_order)
    two = rng.random() < .3
    names = ["S", "X", "Y"][:rng.randint(1, 3)]
    tatoms = [("t", t) for t in rng.sample(terms, min(len(terms), rng.randint(2, 4)))]
    atoms = tatoms * 2 + [("n", n) for n in names]
    ebnf = rng.choice([0, .2, .35]); gd = rng.choice([0, 0, .12]); at = rng.choice([0, 0, .25])
    def prods(n):
        ps = []
        for i in range(rng.randint(1, 3)):
            p = items_gen(rng, atoms, 2, rng.choice([0, 1, 1, 2, 2, 3]), ebnf, gd)
            if rng.random() < .6 and i < len(tatoms): p = [tatoms[(i + rng.randint(0, 1)) % len(tatoms)]] + p
            ps.append(attr(rng, p, at))
        return [p for i, p in enumerate(ps) if [x[:2] for x in p] not in [[x[:2] for x in q] for q in ps[:i]]]
    if rng.random() < .3:   # expressions
        ops = [t for t in terms if t not in ("id", "num")] or ["'+'"]
        samples.setdefault("'+'", ["+"])
        if "'+'" in ops and "'+'" not in terms: terms.append("'+'")
        ops = rng.sample(ops, min(len(ops), rng.randint(1, 3)))
        ex = [[("n", "S"), ("t", o), ("n", "S")] if rng.random() < .7 else [("t", o), ("n", "S")] if rng.random() < .5 else [("n", "S"), ("t", o)] for o in ops] + [[("t", "id")]]
        gr = [("S", "=", [attr(rng, p, at) for p in ex])]; names = ["S"]; atoms[:] = tatoms * 2 + [("n", "S")]
        pat = .8
    else:
        gr = [(n, "=", prods(n)) for n in names]; ops = [t[1] for t in tatoms]; pat = .25
    w.put("language %s {\n" % ("Base" if two else "L"))
    recs, litl, attrs, fn = [], [], [], []
    cut = rng.randint(0, len(plan))
    for b in plan[:cut]: recs.append(put_block(rng, w, b))
    def name(h, r, pos, items, inner):
        for x in items:
            k = len(g.rhs([x]))
            if x[0] in "tn" and inner and x[:2] in INNER: fn.append([h, r, pos, INNER[x[:2]], False])
            elif len(x) > 2: fn.append([h, r, pos, x[2].strip("[]").split(",")[0], False])
            if x[0] == "grp": name(h, r, pos, x[1], True)
            elif x[0] == "alt":
                def nest(rs, heads):
                    heads = heads + [g.rhs([("alt", rs)])[0]]
                    for r2 in rs[:1] if len(rs) > 2 else rs:
                        y = r2
                        while len(y) == 1 and y[0][0] == "grp": y = y[0][1]
                        for m in heads: name(m, g.rhs(r2), 0, r2, True)
                        if len(y) == 1 and y[0][0] == "alt": nest(y[0][1], heads)   # alternatives within alternatives are merged
                    if len(rs) > 2: nest(rs[1:], heads)
                nest(x[1], [])
            elif x[0] in ("opt", "rep", "star"):
                m = g.rhs([x])[0]; q = g.rhs(x[1])
                if x[0] != "star": name(m, q, 0, x[1], True)
                if x[0] != "opt": name(m, [m] + q, 1, x[1], True)
            pos += k
    def note(nts):
        for n, op, ps in nts:
            if op != "|=":
                for f in fn: f[4] = f[4] or f[0] == g.nt(n)
                attrs[:] = [x for x in attrs if x[0] != g.nt(n)]
            for p in ps:
                name(g.nt(n), g.rhs(p), 0, p, False)
                pos = 0
                for x in p:
                    k = len(g.rhs([x]))
                    if len(x) > 2 and x[2] in WHAT: attrs.append([g.nt(n), g.rhs(p), pos, WHAT[x[2]]])
                    pos += k
    def prec():
        pool = [o for o in dict.fromkeys(ops)]
        rng.shuffle(pool)
        lv = []
        while pool:
            k = rng.randint(1, 2); lv.append((rng.choice(["left", "left", "right", "non-associative", "non-assoc"]), pool[:k])); pool = pool[k:]
        w.put("  precedence {\n"); items = []
        for a, ns in lv:
            w.put("    %s %s\n" % (a, ns[0] if len(ns) == 1 and rng.random() < .5 else "{ " + " ".join(ns) + " }"))
            items.append({"a": "non" if a[0] == "n" else a, "names": [codes(x) for x in ns], "line": w.line - 1})
        w.put("  }\n")
        return {"k": "precedence", "weak": False, "ci": False, "cs": False, "defs": [], "nts": [], "items": items}
    used = {l for _, _, ps in gr for p in ps for l in literals(p)}
    gfirst = rng.random() < .5
    ops = [o for o in ops if o in used or o in strong + kw + wkw]
    doprec = ops and rng.random() < pat
    pb = None
    if doprec and rng.random() < .5: recs.append(prec()); doprec = False
    recs.append(put_grammar(rng, w, g, gr, litl)); note(gr)
    if doprec: recs.append(prec())
    for b in plan[cut:]: recs.append(put_block(rng, w, b))
    w.put("}\n")
    langs = [{"name": codes("Base" if two else "L"), "inh": [], "blocks": recs, "lits": litl}]
    if two:
        w.put("language L : Base {\n"); recs, litl = [], []
        more = []
        have = {n: ps for n, _, ps in gr}
        for n in names:
            if rng.random() < .6:
                op = rng.choice(["|=", "|=", "replace"])
                ps = prods(n) if op == "|=" or rng.random() < .6 else [attr(rng, [x[:2] for x in p], at) for p in have[n]]
                if op == "|=":
                    seen = [g.rhs(p) for p in have[n]]
                    ps = [p for p in ps if g.rhs(p) not in seen]
                if ps: more.append((n, op, ps))
        ops = [o for o in ops]
        if more: recs.append(put_grammar(rng, w, g, more, litl)); note(more)
        if ops and rng.random() < .2: recs.append(prec())
        w.put("}\n"); langs.append({"name": codes("L"), "inh": codes("Base"), "blocks": recs, "lits": litl})
    for t in g_order: g.term(t)
    # inputs from the grammar in force
    syms = [dict(s) for s in g.t.syms]
    cur = {}
    for L in langs:
        for b in L["blocks"]:
            for n in b["nts"]: cur[n["s"]] = n["prods"] if n["op"] != "|=" and n["s"] not in cur or n["op"] == "replace" else cur.get(n["s"], []) + n["prods"]
    for s in cur: syms[s - 1]["r"] = cur[s]
    start = [g.nt("S")] + ([g.nt(names[-1])] if len(names) > 1 and rng.random() < .2 else [])
    plainsyms = [{"k": "n" if s["k"] == "grd" else s["k"], "r": [[]] if s["k"] == "grd" else s["r"]} for s in syms]
    if loops(plainsyms) or not cfgen.guards_end(syms): return None
    ts = [i + 1 for i, s in enumerate(syms) if s["k"] == "t"]
    texts = []
    for _ in range(14):
        x = cfgen.sentence(rng, plainsyms, rng.choice(start), rng.randint(2, 10))
        if x is None or len(x) > 12: x = [rng.choice(ts) for _ in range(rng.randint(0, 4))]
        elif rng.random() < .35: x = cfgen.mutate(rng, x, ts)
        texts.append(codes(text_of(rng, g, samples, x)))
    if NEWLINES: texts = [[10 if x == 32 and rng.random() < .4 else x for x in t] for t in texts]
    texts = [t for i, t in enumerate(texts) if t not in texts[:i] and len(t) < 40]
    c = finish(g, langs, w, "L", start, texts, attrs=attrs)
    if NAMED: c["fn"] = [f for f in fn if "=" not in f[3]]
    return c

# --- diagnostics
def circular_guard(c):
    """A guard may begin with itself (the compiler does not support that)."""
    syms = c["syms"]; P = {i + 1: [list(r) for r in s["r"]] for i, s in enumerate(syms) if s["k"] not in "tn"}
    for l in c["langs"]:
        for b in l["blocks"]:
            for n in b["nts"]: P.setdefault(n["s"], []).extend(n["prods"])
    nul = {i for i in P if syms[i - 1]["k"] in ("opt", "star")}; more = True
    while more:
        more = False
        for a in P:
            if a not in nul and any(all(x in nul for x in r) for r in P[a]): nul.add(a); more = True
    lead = {a: set() for a in P}
    for a in P:
        for r in P[a]:
            for x in r:
                if x in P: lead[a].add(x)
                if x not in nul and syms[x - 1]["k"] != "grd": break
    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in lead.get(todo.pop(), ()):
                if y not in seen: seen.add(y); todo.append(y)
        return seen
    return any(s["k"] == "grd" and i + 1 in reach(i + 1) for i, s in enumerate(syms))

BADRX = ["(a", "((a)", "[ab", "a{e0", "{e9}", "(a|b", "a(b[c)"]
def diag_case(rng):
    while True:
        c = diag_case1(rng)
        if not circular_guard(c) or rng.random() < .5: return c

def diag_case1(rng):
    g = Gram(); alpha = [97, 98]
    nlang = rng.choice([1, 1, 2, 2, 3]); nfile = rng.choice([1, 1, 2, 3])
    wrong = rng.choice([0, 0, .03, .1, .25])    # how likely a mistake is at each place
    oops = lambda: rng.random() < wrong
    fnames = ["root.tp", "x.tp", "y.tp"][:nfile]
    W = {f: Writer() for f in fnames}
    imports = {f: [] for f in fnames}
    for i, f in enumerate(fnames[1:]): imports[rng.choice(fnames[:i + 1])].append(f)
    for f in fnames:
        if rng.random() < .2: imports[f].append(rng.choice(fnames))
        if oops() and rng.random() < .3: imports[f].append("no.tp")
    if oops() and rng.random() < .3 and nfile > 1: imports[fnames[0]] = []
    real = [["./" + f, f] for f in fnames]
    lnames = ["A", "B", "C"][:nlang]
    place = sorted([rng.choice(fnames) for _ in lnames], key=fnames.index) if rng.random() < .5 else [rng.choice(fnames) for _ in lnames]
    todo = []
    for i, n in enumerate(lnames):
        inh = rng.choice(lnames[:i]) if i and rng.random() < .8 else ""
        if oops() and rng.random() < .3: inh = rng.choice(["Nope"] + lnames)
        todo.append((n, inh, place[i]))
    if oops() and rng.random() < .5: todo.append((rng.choice(lnames), "", rng.choice(fnames)))
    for f in fnames:
        imp = list(imports[f]); rng.shuffle(imp)
        for x in imp[:rng.randint(0, len(imp))]: W[f].put('import "%s"\n' % (x if rng.random() < .7 else "./" + x)); imports[f].remove(x); imports[f].append("@" + x)
    known = {"": ([], {}, ["S"])}
    langs = []
    for n, inh, f in todo:
        w = W[f]; exprs, terms, nts = known.get(inh, ([], {}, [])); exprs, terms, nts = list(exprs), dict(terms), list(nts)
        if inh == "": nts = []
        w.put(rng.choice(["", "\n", "// a language\n"])); line = w.line
        w.put("language %s%s {\n" % (n, " : " + inh if inh else ""))
        blocks = []; lits = []; parts = []
        if rng.random() < .6: parts.append(("symbols", False))
        for _ in range(rng.randint(1, 3) if not inh or inh == "Nope" else rng.randint(0, 2)): parts.append((rng.choice(["keywords", "lexer", "lexer", "ignore"]), rng.random() < .3))
        rank = lambda x: (0,) if x[0] == "symbols" else (1, not x[1], ["keywords", "lexer", "ignore"].index(x[0]))
        made = []
        for k, weak in sorted(parts, key=rank):
            b = block(k, weak=weak and k not in ("ignore", "symbols"))
            for _ in range(rng.randint(1, 3)):
                if k == "symbols":
                    if exprs and rng.random() < .3: name, op = rng.choice(exprs), rng.choice(["|=", "replace"])
                    else: name, op = "e%d" % len(exprs), "="
                else:
                    same = [t for t in terms if terms[t] == k]
                    if same and rng.random() < .3: name, op = rng.choice(same), rng.choice(["|=", "replace"])
                    else: name, op = ("t%d" % len(terms), "=")
                if oops(): op = rng.choice(["=", "|=", "replace"])
                if oops(): name = rng.choice(["t0", "t1", "e0", "e1", "ab"])
                if op == "=" and k in ("keywords", "ignore") and rng.random() < .4:
                    name = rng.choice(["ab", "ba", "aa", "b"])
                    if name in terms and not oops(): continue
                    d = definition(rng, name, "=", "word", name)
                elif rng.random() < .25: v = "".join(chr(rng.choice(alpha)) for _ in range(rng.randint(1, 2))); d = definition(rng, name, op, "lit", v, quote(rng, v))
                else: d = definition(rng, name, op, "re", rng.choice(BADRX) if oops() else Rx(rng, alpha, [e for e in exprs if e < name or k != "symbols" or oops()]).regex())
                (exprs.append(name) if k == "symbols" and name not in exprs else terms.setdefault(name, k) if k != "symbols" else 0)
                b["defs"].append(d)
            if b["defs"]: made.append(b)
        if not inh or rng.random() < .7:
            mine = rng.sample(["S", "X", "Y", "Z"], rng.randint(1, 3))
            if not inh or inh == "Nope": mine = sorted(set(mine + ["S"]))
            pool = [x for x in nts if x not in mine] + mine
            grecs = []
            def it(depth):
                x = rng.random()
                if x < .4: return ("n", rng.choice(pool)) if not oops() else ("n", rng.choice("UVWXYZ"))
                if x < .7 and terms: return ("t", rng.choice(list(terms)))
                if x < .8: return ("t", rng.choice(["'a'", '"ab"', "'c'"]))
                if x < .83: return ("t", rng.choice(["aw", "bw"]))
                if depth <= 0: return ("t", "'b'")
                if x < .9: return (rng.choice(["opt", "star", "rep"]), [it(depth - 1)])
                if x < .95: return ("alt", [[it(depth - 1)], [it(depth - 1)]])
                return ("grd", [it(0) if not oops() else ("opt", [it(0)])])
            defs = []
            for m in mine:
                op = "=" if m not in nts else rng.choice(["|=", "replace"])
                if oops(): op = rng.choice(["=", "|=", "replace"])
                ps = [[it(1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))] for _ in range(rng.randint(1, 3))]
                ps = [p for i, p in enumerate(ps) if p not in ps[:i]]
                defs.append((m, op, ps)); nts.append(m) if m not in nts else 0
            made.append(("grammar", defs))
        if rng.random() < .2: made.append(("precedence", [rng.choice(list(terms) + ["'a'"]) if (terms or 1) and not oops() else "nope" for _ in range(rng.randint(1, 2))]))
        order = list(range(len(made))); rng.shuffle(order)
        # blocks of one kind stay in order
        seq = sorted(order, key=lambda i: 0); kinds = [made[i]["k"] if isinstance(made[i], dict) else made[i][0] for i in range(len(made))]
        slots = [kinds[i] for i in order]; it_ = {k: iter([i for i in range(len(made)) if kinds[i] == k]) for k in set(kinds)}
        for k in slots:
            m = made[next(it_[k])]
            if isinstance(m, dict): blocks.append(put_block(rng, w, m))
            elif m[0] == "grammar": blocks.append(put_grammar(rng, w, g, m[1], lits))
            else:
                w.put("  precedence {\n"); items = []
                for x in m[1]: w.put("    left %s\n" % x); items.append({"a": "left", "names": [codes(x)], "line": w.line - 1})
                w.put("  }\n"); blocks.append({"k": "precedence", "weak": False, "ci": False, "cs": False, "defs": [], "nts": [], "items": items})
        w.put("}\n"); known[n] = (exprs, terms, nts)
        langs.append({"name": codes(n), "inh": codes(inh), "blocks": blocks, "lits": lits, "file": f, "line": line})
        for t in terms: g.term(t)
    for f in fnames:
        for x in imports[f]:
            if x[0] != "@": W[f].put('import "%s"\n' % x)
    there = lambda x: x in fnames
    fs = [{"name": f, "imports": [x.lstrip("@") for x in imports[f]], "there": True} for f in fnames] + [{"name": "no.tp", "imports": [], "there": False}]
    target = rng.choice(lnames[-2:]) if not oops() else rng.choice(lnames + ["Q"])
    start = [g.nt("S")] + ([g.nt("Q")] if oops() else [])
    if oops() and rng.random() < .3: start = [g.nt("Q")]
    c = finish(g, langs, W["root.tp"], target, start, [], fs=fs, alpha=[97, 98, 99, 0x263a] + [ord(x) for x in "w"])
    c["files"] = [[codes(f), codes(W[f].text())] for f in fnames]
    c["alias"] = real + [["./no.tp", "no.tp"]]
    c["real"] = [[codes(a), codes(b)] for a, b in real + [["./no.tp", "no.tp"]]]
    return c

# --- test blocks
def test_case(rng):
    """A definition with test blocks in its root file."""
    global NEWLINES
    NEWLINES = rng.random() < .5
    try:
        c = parse_case(rng)
        while not stops(c): c = parse_case(rng)
    finally: NEWLINES = False
    name = lambda s: "".join(map(chr, c["names"][s - 1]))
    nts = [i + 1 for i, s in enumerate(c["syms"]) if s["k"] == "n" and name(i + 1)]
    if rng.random() < .4: c["start"] = nts
    w = Writer(); w.put("".join(map(chr, c["files"][0][1])))
    blocks = []; nfile = 0
    clean = [i for i, t in enumerate(c["inputs"]) if not (t and t[-1] == 92) and 34 not in t]
    def pos(): t = w.text(); return [len(t), t.count("\n"), len(t) - t.rfind("\n") - 1]
    def pad(): w.put(rng.choice(["", "", " ", "\n    ", " // note\n  ", "/* a */ "]))
    def spec(t, ident):
        i = t["i"]
        if t["ty"] == 2:
            f = "t%d.txt" % i
            if t["x"]: src = f
            else: src = "none%d.txt" % rng.randint(0, 2)
            t["file"] = codes(src)
            if t["x"] and not any(x[0] == codes(f) for x in c["files"]): c["files"].append([codes(f), c["inputs"][i - 1]])
        else:
            src = ""; t["esc"] = False
            for ch in map(chr, c["inputs"][i - 1]):
                if ch in '"\\' or (not ch.isalnum() and rng.random() < t["quoted"]): src += "\\" + {"\n": "n"}.get(ch, ch); t["esc"] = True
                else: src += ch
        if ident: w.put(ident); pad(); w.put("("); pad()
        t["start"] = pos(); w.put('"'); t["str"] = pos(); w.put(src); w.put('"')
        if ident: pad(); w.put(")")
        t["end"] = pos()
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        w.put("\n")
        ln = rng.choice(["L"] * 7 + ["Nowhere"] + ["Base"] * (2 if len(c["langs"]) > 1 else 0))
        b = {"lang": codes(ln), "pos": pos(), "tests": []}
        w.put("test %s {\n" % ln)
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = rng.randint(1, len(c["start"])); nt = name(c["start"][k - 1])
            ty = rng.choice([0, 0, 0, 1, 1, 2])
            w.put("  " + nt); pad(); w.put([" = ", " != ", " from "][ty])
            for _ in range(rng.choice([1, 1, 2])):
                ident = rng.choice(["", "", "one", "two", "a-name", "x" * rng.randint(30, 46)])
                t = {"k": k, "i": rng.choice(clean) + 1, "ty": ty, "x": rng.random() < .9, "quoted": rng.choice([0, 0, 0, .3]), "base": codes(ident or nt), "file": [], "esc": False}
                spec(t, ident); del t["quoted"]; w.put(" "); b["tests"].append(t)
            w.put("\n")
        w.put("}\n"); blocks.append(b)
    c["files"][0][1] = codes(w.text()); c["blocks"] = blocks
    return c

def stops(c):
    """Parsing always ends: no loops, no guards that look for themselves (whichever of the rules are in force)."""
    syms = [dict(s, r=[list(r) for r in s["r"]]) for s in c["syms"]]
    for l in c["langs"]:
        for b in l["blocks"]:
            for n in b["nts"]: syms[n["s"] - 1]["r"] += [list(r) for r in n["prods"]]
    plain = [{"k": "n" if s["k"] == "grd" else s["k"], "r": [[]] if s["k"] == "grd" else s["r"]} for s in syms]
    return not loops(plain) and cfgen.guards_end(syms)

def broken_case(rng):
    """Definitions with mistakes and test blocks."""
    c = diag_case(rng)
    while not stops(c): c = diag_case(rng)
    nm = lambda x: "".join(map(chr, x))
    root = next(f for f in c["files"] if f[0] == c["root"])
    w = Writer(); w.put(nm(root[1])); c["blocks"] = []
    nts = [nm(c["names"][i]) for i, s in enumerate(c["syms"]) if s["k"] == "n" and c["names"][i]]
    langs = [nm(l["name"]) for l in c["langs"]] + (["Nowhere"] if rng.random() < .1 else [])
    for n in [rng.choice(langs) for _ in range(rng.randint(1, 3))]:
        w.put("\n"); c["blocks"].append({"lang": codes(n), "line": w.text().count("\n")})
        w.put("test %s {\n" % n)
        for _ in range(rng.randint(0, 3)): w.put('  %s %s "%s"\n' % (rng.choice(nts), rng.choice(["=", "!="]), rng.choice(["", "a", "b", "ab", "aab"])))
        w.put("}\n")
    root[1] = codes(w.text())
    return c
