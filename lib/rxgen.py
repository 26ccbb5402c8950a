"""Generation of regular expressions (concrete syntax, as lists of code points)."""
import itertools

QUANT = "*+?"
SPECIAL = set("()|*+?.[]{}\\^-")

def codes(s):
    return [ord(c) for c in s]

def wellformed(s):
    """operators applied to something, brackets balanced (no empty group followed by nothing special)"""
    depth = 0
    prev = None          # None = nothing to quantify here
    for c in s:
        if c == "(":
            depth += 1; prev = None
        elif c == ")":
            if depth == 0: return False
            depth -= 1; prev = ")"
        elif c == "|":
            prev = None
        elif c in QUANT:
            if prev is None: return False
        else:
            prev = c
    return depth == 0

def exhaustive(alphabet, length):
    for t in itertools.product(alphabet, repeat=length):
        s = "".join(t)
        if wellformed(s):
            yield s

def spell(rng, ch, wide=True):
    """one of the ways to write the literal character"""
    c = chr(ch)
    esc = {7: "a", 27: "e", 10: "n", 13: "r", 12: "f", 9: "t"}
    opts = []
    if c not in SPECIAL and ch >= 32: opts += [c] * 6
    if ch in esc: opts += ["\\" + esc[ch]] * 3
    if c in SPECIAL or (ch >= 33 and not c.isalnum() and ch < 127): opts += ["\\" + c] * 2
    if ch < 65536: opts.append("\\u%04x" % ch if rng.random() < .5 else "\\u%04X" % ch)
    if ch < 256: opts.append("\\x%02x" % ch)
    if ch < 0o1000: opts.append("\\%03o" % ch)
    if ch < 0o1000000: opts.append("\\o%06o" % ch)
    return rng.choice(opts)

class Gen:
    def __init__(self, rng, alphabet=None, defs=(), maxset=3):
        self.r = rng
        self.alpha = alphabet or [97, 98, 99, 65, 48]
        self.defs = list(defs)
        self.maxset = maxset

    def char(self):
        return self.r.choice(self.alpha)

    def set(self):
        neg = "^" if self.r.random() < .25 else ""
        out = ""
        for i in range(self.r.randint(1, self.maxset)):
            a = self.char()
            if self.r.random() < .5:
                b = self.char()
                if b < a: a, b = b, a
                out += self.setch(a) + "-" + self.setch(b)
            else:
                out += self.setch(a)
        return "[" + neg + out + "]"

    def setch(self, ch):
        s = spell(self.r, ch)
        return s

    def atom(self, d):
        x = self.r.random()
        if d > 0 and x < .34:
            return "(" + self.alt(d - 1) + ")"
        if x < .44: return self.set()
        if x < .47: return "."
        if x < .53 and self.defs: return "{" + self.r.choice(self.defs) + "}"
        return spell(self.r, self.char())

    def cat(self, d):
        out = ""
        for i in range(self.r.choice([1, 1, 2, 2, 3])):
            out += self.atom(d)
            while self.r.random() < .33:
                out += self.r.choice(QUANT)
        return out

    def alt(self, d):
        n = self.r.choice([1, 1, 1, 2, 2, 3])
        parts = [self.cat(d) for i in range(n)]
        if n > 1 and self.r.random() < .06:
            parts[self.r.randrange(n)] = ""
        return "|".join(parts)

    def regex(self, d=2):
        return self.alt(d)
