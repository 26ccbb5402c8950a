"""Texts in the definition language: random sentences, and sentences with something wrong."""
KW = "language import lexer-symbols lexer ignore weak keywords grammar replace parser test from case sensitive insensitive precedence left right non-associative non-assoc conflict shift reduce can-clash".split()
SYM = ["{", "}", "=", "|=", "|", ":", ".", ",", "(", ")", "[", "]", "[=>", "*", "+", "?", "!="]

class Gen:
    def __init__(self, r): self.r = r; self.o = []; self.size = 0
    def put(self, *ts):
        for t in ts: self.o.append(t)
    def kw(self, *ws): self.put(*[("id", w) for w in ws])
    def sym(self, *ws): self.put(*[(w, w) for w in ws])
    def id(self):
        self.put(("id", self.r.choice(KW) if self.r.random() < .25 else self.r.choice(["a", "b", "x-y", "id", "L", "foo_bar", "z9"])))
    def nt(self): self.put(("nt", "<" + self.r.choice(["A", "B", "S", "Expr-List", "language", "x"]) + ">"))
    def str(self): self.put(("str", '"' + "".join(self.r.choice("abx +{}=|/*'<>[]") for _ in range(self.r.choice([1, 1, 2, 3, 0]))) + '"'))
    def ch(self): self.put(("ch", "'" + self.r.choice(["a", "+", "{", "}", "|", "=", '"', " ", "\\n", "\\'", "\\\\", "/", "<"]) + "'"))
    def re(self): self.put(("re", "/" + self.r.choice(["a", "[a-z]+", "x|y", "(a b)*", "{id}", "a\\/b", ".", "=", '"']) + "/"))
    def some(self, f, lo=0, hi=3):
        for _ in range(self.r.randint(lo, hi)): f()
    def file(self): self.some(self.top, 0 if self.r.random() < .05 else 1, 2)
    def top(self): self.r.choice([self.language] * 6 + [self.imp, self.parser, self.test, self.test])()
    def imp(self): self.kw("import"); self.str()
    def language(self):
        self.kw("language"); self.id()
        if self.r.random() < .3: self.sym(":"); self.id()
        self.sym("{"); self.some(self.unit, 0, 3); self.sym("}")
    def unit(self): self.r.choice([self.lex, self.lex, self.grammar, self.grammar, self.grammar, self.prec])()
    def lex(self):
        k = self.r.choice(["lexer", "keywords", "ignore", "lexer-symbols"])
        if k != "ignore":
            while self.r.random() < .35:
                if k != "lexer-symbols" and self.r.random() < .5: self.kw("weak")
                else: self.kw("case", self.r.choice(["sensitive", "insensitive"]))
        self.kw(k); self.sym("{"); self.some(self.word if k in ("keywords", "ignore") else self.lexeme, 0, 4); self.sym("}")
    def word(self):
        if self.r.random() < .5: self.id()
        else: self.lexeme()
    def lexeme(self):
        x = self.r.random()
        if x < .25: self.kw("replace"); self.id(); self.sym("=")
        elif x < .27: self.id(); self.sym("="); self.id(); self.sym("."); self.id(); return
        else: self.id(); self.sym(self.r.choice(["=", "=", "|="]))
        self.r.choice([self.re, self.str, self.ch])()
    def grammar(self): self.kw("grammar"); self.sym("{"); self.some(self.rule, 0, 3); self.sym("}")
    def rule(self):
        if self.r.random() < .2: self.kw("replace"); self.nt(); self.sym("=")
        else: self.nt(); self.sym(self.r.choice(["=", "=", "|="]))
        self.some(lambda: self.item(0))
        while self.r.random() < .4: self.sym("|"); self.some(lambda: self.item(0))
    def ebnf(self, d):
        self.some(lambda: self.item(d), 0 if self.r.random() < .15 else 1, 3)
        while self.r.random() < .35: self.sym("|"); self.some(lambda: self.item(d), 0 if self.r.random() < .15 else 1, 2)
    def item(self, d):
        r = self.r; x = r.random()
        if d < 3 and x < .15: self.sym("("); self.ebnf(d + 1); self.sym(")")
        elif d < 3 and x < .22:
            self.sym("[=>")
            if r.random() < .3: self.sym("["); self.kw("can-clash"); self.sym("]")
            self.ebnf(d + 1); self.sym("]")
        else:
            if r.random() < .12: self.id(); self.sym(".")
            r.choice([self.nt, self.nt, self.id, self.str, self.ch])()
        self.sem()
        while r.random() < .2: self.sym(r.choice("*+?")); self.sem()
    def sem(self):
        if self.r.random() > .15: return
        self.sym("["); self.attr()
        while self.r.random() < .3: self.sym(","); self.attr()
        self.sym("]")
    def attr(self):
        if self.r.random() < .5: self.id()
        else: self.kw("conflict"); self.sym("="); self.kw(*self.r.choice([["shift"], ["reduce"], ["weak", "reduce"]]))
    def prec(self):
        self.kw("precedence"); self.sym("{")
        for _ in range(self.r.randint(0, 3)):
            self.kw(self.r.choice(["left", "right", "non-associative", "non-assoc"]))
            if self.r.random() < .5: self.item(2)
            else: self.sym("{"); self.some(lambda: self.item(2)); self.sym("}")
        self.sym("}")
    def start(self):
        if self.r.random() < .2: self.id(); self.sym(".")
        self.nt()
    def parser(self): self.kw("parser"); self.id(); self.sym(":"); self.id(); self.sym("{"); self.some(self.start, 1, 3); self.sym("}")
    def test(self):
        self.kw("test"); self.id(); self.sym("{")
        for _ in range(self.r.randint(0, 3)):
            self.start(); self.r.choice([lambda: self.sym("="), lambda: self.sym("!="), lambda: self.kw("from")])()
            for _ in range(self.r.randint(1, 3)):
                if self.r.random() < .4: self.id(); self.sym("("); self.str(); self.sym(")")
                else: self.str()
        self.sym("}")

def mistake(r, toks):
    """Changes one token (or two)."""
    toks = list(toks); g = Gen(r)
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(toks) + 1); x = r.random()
        r.choice([g.id, g.nt, g.str, g.ch, g.re] + [lambda: g.sym(r.choice(SYM))] * 5 + [lambda: g.kw(r.choice(KW))] * 3)()
        t = g.o.pop(); g.o.clear()
        if r.random() < .03: t = ("bad", r.choice(["#", "@", "%", "9", "^", ">"]))
        if x < .3: del toks[i:i + 1]
        elif x < .55: toks[i:i] = [t]
        elif x < .8: toks[i:i + 1] = [t]
        elif x < .88: del toks[i:]
        elif x < .94 and i + 1 < len(toks): toks[i], toks[i + 1] = toks[i + 1], toks[i]
        else: toks[i:i] = toks[max(0, i - r.randint(1, 3)):i]
    return toks

# pairs of neighbours that stay two tokens without a space: what is glued is only brackets and what cannot continue them
def glue(a, b):
    return a[0] in "{}(),:" and b[0] in ("id", "nt", "str", "{", "}", ")", "(", ",") or a[0] in ("id", "nt", "str") and b[0] in ("{", "}", "(", ")", ",", "]", "[", "*", "+", "?", ".")

def render(r, toks):
    text, out, l, c = "", [], 0, 0
    def add(s):
        nonlocal text, l, c
        for x in s:
            if x == "\n": l += 1; c = 0
            else: c += 1
        text += s
    prev = None
    for t in toks:
        if prev is not None and not (glue(prev, t) and r.random() < .4) or prev is None and r.random() < .3:
            for _ in range(r.choice([1, 1, 1, 2])): add(r.choice([" ", " ", "  ", "\t", "\n", "\n  ", " // note\n", " /* \"x\" */ ", "\n\n"]))
        b, bl, bc = len(text), l, c
        add(t[1])
        out.append({"k": t[0], "v": t[1], "q": t[1][1:-1] if t[0] == "str" else "", "b": b, "e": len(text), "l": bl, "c": bc})
        prev = t
    if r.random() < .5: add(r.choice(["\n", " ", "\n// end", "\n\n"]))
    return text, out

def case(r):
    g = Gen(r); g.file(); toks = g.o
    if r.random() < .6: toks = mistake(r, toks)
    text, out = render(r, toks[:160])
    return {"root": codes("root.tp"), "files": [[codes("root.tp"), codes(text)]], "opts": [], "toks": out}
def codes(s): return [ord(x) for x in s]

# beginnings from which all continuations are tried
def begin(*ws): return [w if isinstance(w, tuple) else (w, w) if w in SYM else ("id", w) for w in ws]
NT, STR, RE, CH = ("nt", "<A>"), ("str", '"s"'), ("re", "/r/"), ("ch", "'c'")
LB = ["language", "L", "{"]
GB = LB + ["grammar", "{", NT, "="]
BEGIN = [begin(*b) for b in ([], ["language", "L"], LB, LB + ["case", "insensitive"], LB + ["weak"], LB + ["lexer", "{"], LB + ["keywords", "{", "x"], LB + ["lexer", "{", "x", "="], LB + ["ignore", "{", "replace"],
    GB, GB + ["x"], GB + ["(", NT], GB + ["[=>"], GB + ["x", "["], GB + ["x", "[", "conflict"], GB + [NT, "*"], GB + ["x", "."], GB + ["|"], LB + ["precedence", "{"], LB + ["precedence", "{", "left"], LB + ["precedence", "{", "left", "{", "x"],
    ["parser", "P", ":", "L", "{"], ["parser", "P", ":", "L", "{", NT], ["test", "L", "{"], ["test", "L", "{", NT], ["test", "L", "{", NT, "="], ["test", "L", "{", NT, "=", STR], ["test", "L", "{", NT, "from", "x", "(", STR, ")"])]
NEXT = begin(*SYM) + [("id", w) for w in KW + ["x"]] + [NT, STR, RE, CH, ("bad", "#")]
def continuations(): return [(b, a, c) for b in BEGIN for a in NEXT for c in [None] + NEXT]
def continued(r, x):
    text, out = render(r, x[0] + [y for y in x[1:] if y])
    return {"root": codes("root.tp"), "files": [[codes("root.tp"), codes(text)]], "opts": [], "toks": out}
