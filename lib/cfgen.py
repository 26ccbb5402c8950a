"""Random context-free grammars in EBNF, as tables of symbols (1-based; EBNF items are interned)."""

class Table:
    def __init__(self):
        self.syms, self.key = [], {}
    def add(self, k, r=()):
        self.syms.append({"k": k, "r": [list(x) for x in r]}); return len(self.syms)
    def item(self, k, r):
        r = tuple(tuple(x) for x in r)
        if (k, r) not in self.key: self.key[(k, r)] = self.add(k, r)
        return self.key[(k, r)]

def rule(rng, t, atoms, ebnf, depth, maxlen, eps=.1, deep=False):
    n = 0 if rng.random() < eps else rng.randint(1, maxlen)
    return [sym(rng, t, atoms, ebnf, depth, deep) for _ in range(n)]

def sym(rng, t, atoms, ebnf, depth, deep=False):
    if depth > 0 and rng.random() < ebnf:
        k = rng.choice(["opt", "rep", "star", "alt", "alt"] + ["alt"] * 7 * deep)
        nr = rng.randint(1, 3) if k == "alt" else 1
        rs = []
        for _ in range(nr):
            r = rule(rng, t, atoms, ebnf, depth - 1, 2)
            if not r and rng.random() < .7: r = [rng.choice(atoms)]
            if deep and k == "alt" and rng.random() < .4: r = [sym(rng, t, atoms, .8, depth - 1, True)] + ([rng.choice(atoms)] if rng.random() < .4 else [])
            rs.append(r)
        return t.item(k, rs)
    return rng.choice(atoms)

def random(rng, nt=(1, 4), tt=(1, 3), ebnf=.15, maxlen=3, maxrules=3, shuffle=True):
    t = Table()
    kinds = ["t"] * rng.randint(*tt) + ["n"] * rng.randint(*nt)
    if shuffle: rng.shuffle(kinds)
    for k in kinds: t.add(k)
    ts = [i + 1 for i, k in enumerate(kinds) if k == "t"]; ns = [i + 1 for i, k in enumerate(kinds) if k == "n"]
    # some grammars have many empty rules, some many nonterminals in a row, some the same rule for several nonterminals
    eps = .1 if rng.random() < .7 else .35
    atoms = ts * 2 + ns * (1 if rng.random() < .7 else 3)
    same = 0 if rng.random() < .7 else .3
    deep = ebnf > .2 and rng.random() < .3    # alternatives within alternatives
    seen = []
    for a in ns:
        rs = []
        for _ in range(rng.randint(1, maxrules)):
            r = rng.choice(seen) if seen and rng.random() < same else rule(rng, t, atoms, ebnf, 4 if deep else 2, 2 if deep else maxlen, eps, deep)
            seen.append(r)
            if r not in rs: rs.append(r)
        t.syms[a - 1]["r"] = rs
    return t.syms, ts, ns

def words(ts, n, cap=10**9):
    out, lvl = [[]], [[]]
    for _ in range(n):
        lvl = [w + [x] for w in lvl for x in ts]
        if len(out) + len(lvl) > cap: break
        out += lvl
    return out

def text(src):
    """A grammar from text: one 'Name: alternatives' per line, EBNF items as ( .. )? ( .. )* ( .. )+ ( .. | .. )."""
    t = Table(); heads = []
    lines = [l.split(":", 1) for l in src.strip().splitlines()]
    heads = [l[0].strip() for l in lines]
    toks = [l[1].split() for l in lines]
    ids, syms_of = {}, []
    for l in toks:
        for x in l:
            if x not in ids and x not in heads and x[0] not in "()|": ids[x] = t.add("t")
    for h in heads: ids[h] = t.add("n")
    def alts(l, i):
        rs, cur = [], []
        while i < len(l) and not (l[i][0] == ")" and l[i] in (")", ")?", ")*", ")+")):
            if l[i] == "|": rs.append(cur); cur = []
            elif l[i] == "(":
                sub, i = alts(l, i + 1)
                k = {")": "alt", ")?": "opt", ")*": "star", ")+": "rep"}[l[i]]
                if k != "alt" and len(sub) > 1: sub = [[t.item("alt", sub)]]
                cur.append(t.item(k, sub))
            else: cur.append(ids[l[i]])
            i += 1
        return rs + [cur], i
    for h, l in zip(heads, toks):
        t.syms[ids[h] - 1]["r"] = [r for k, r in enumerate(alts(l, 0)[0]) ]
    return t.syms, ids

def prods(syms, s):
    k, r = syms[s - 1]["k"], syms[s - 1]["r"]
    if k in ("n", "alt"): return r
    if k == "opt": return [[]] + r
    if k == "rep": return r + [[s] + r[0]]
    if k == "star": return [[]] + [[s] + r[0]]
    return []

def guards_end(syms):
    """No guard body is empty, looks for itself at its start, or can be followed by the same guard without a token in between."""
    n = len(syms); gs = [i for i in range(1, n + 1) if syms[i - 1]["k"] == "grd"]
    P = {s: prods(syms, s) for s in range(1, n + 1)}
    for g in gs: P[n + g] = syms[g - 1]["r"]
    null = set(); ch = True
    while ch:
        ch = False
        for s in P:
            if s not in null and any(all(x in null for x in p) for p in P[s]): null.add(s); ch = True
    first = {s: ({s} if s <= n and syms[s - 1]["k"] in ("t", "grd") else set()) for s in P}
    def fseq(p):
        r = set()
        for x in p:
            r |= first[x]
            if x not in null: return r, False
        return r, True
    ch = True
    while ch:
        ch = False
        for s in P:
            for p in P[s]:
                f = fseq(p)[0]
                if not f <= first[s]: first[s] |= f; ch = True
    if any(n + g in null for g in gs): return False
    follow = {s: set() for s in P}; ch = True
    while ch:
        ch = False
        for s in P:
            for p in P[s]:
                for i, x in enumerate(p):
                    f, e = fseq(p[i + 1:])
                    if e: f = f | follow[s]
                    if not f <= follow[x]: follow[x] |= f; ch = True
    for rel in ({g: first[n + g] | follow[g] for g in gs},):
        seen = set()
        def cyc(g, path):
            if g in path: return True
            return any(cyc(h, path | {g}) for h in rel[g] if h in gs)
        if any(cyc(g, frozenset()) for g in gs): return False
    return True

def sentence(rng, syms, start, target=12):
    """A random sentence (None if the start symbol cannot produce a short one)."""
    n = len(syms); big = 10**6
    cost = [0] + [1 if x["k"] == "t" else .01 if x["k"] == "grd" else big for x in syms]
    ch = True
    while ch:
        ch = False
        for s in range(1, n + 1):
            for p in prods(syms, s):
                c = .01 + sum(cost[x] for x in p)
                if c < cost[s] - 1e-9: cost[s] = c; ch = True
    if cost[start] >= big: return None
    out, todo, left = [], [start], target
    while todo:
        x = todo.pop()
        if syms[x - 1]["k"] == "t": out.append(x); left -= 1; continue
        if syms[x - 1]["k"] == "grd": continue
        ps = [p for p in prods(syms, x) if sum(cost[y] for y in p) < big]
        if left <= len(todo) or rng.random() < .1:
            m = min(sum(cost[y] for y in p) for p in ps); ps = [p for p in ps if sum(cost[y] for y in p) <= m + 1e-9]
        if len(out) > 3 * target: return None
        left -= .2
        todo += reversed(rng.choice(ps))
    return out

def mutate(rng, w, ts):
    w = list(w)
    for _ in range(rng.randint(1, 2)):
        r = rng.random(); i = rng.randint(0, len(w))
        if r < .35: w.insert(i, rng.choice(ts))
        elif r < .7 and w: del w[min(i, len(w) - 1)]
        elif w: w[min(i, len(w) - 1)] = rng.choice(ts)
    return w

CLASSIC = ["""
E: E + T | E - T | T
T: T * F | T / F | F
F: ( | """.replace("( |", "lp E rp | id | num | - F"),
"""
S: L = R | R
L: * R | id
R: L
""", """
S: a A d | b B d | a B e | b A e
A: c
B: c
""", """
V: str | num | O | A | true | false | null
O: { ( M ( , M )* )? }
A: [ ( V ( , V )* )? ]
M: str : V
""".replace("str : V", "str colon V"), """
P: ( S ; )*
S: id = E | if E then S ( else S )? | { P }
E: id | num | E op E
""", """
P: D+s
D: lang id { B }
B: ( U )*
U: lexer { ( id = re )* } | grammar { R } | import str
R: ( N )+
N: < id > = ( I )* ( or ( I )* )*
I: id | < id > | lp R2 rp
R2: ( I )+
""".replace("D+s", "( D )+"), """
S: A S b | x
A:
""", """
S: a S a | b S b |
""", """
S: ( a | b )* c ( a b )? d
""", """
S: stmts
stmts: stmts stmt | stmt
stmt: expr ; | while lp expr rp stmt | { stmts } | ;
expr: id | id = expr | expr2
expr2: num | expr2 + num | id lp ( expr ( , expr )* )? rp
""", """
S: S a | S b |
""", """
A: B x | C y
B: C
C: c C |
"""]
