"""P06: case conversion and character categories agree with Unicode."""
import json, os, unicodedata
import vf
old = unicodedata.ucd_3_2_0

CATS = {"letter": "L", "letter-uppercase": "Lu", "letter-lowercase": "Ll", "letter-titlecase": "Lt", "letter-modifier": "Lm", "letter-other": "Lo",
        "mark": "M", "mark-nonspacing": "Mn", "mark-spacing": "Mc", "mark-enclosing": "Me",
        "number": "N", "number-decimal": "Nd", "number-letter": "Nl", "number-other": "No",
        "punctuation": "P", "punctuation-connector": "Pc", "punctuation-dash": "Pd", "punctuation-open": "Ps", "punctuation-close": "Pe",
        "punctuation-initial": "Pi", "punctuation-final": "Pf", "punctuation-other": "Po",
        "symbol": "S", "symbol-math": "Sm", "symbol-currency": "Sc", "symbol-modifier": "Sk", "symbol-other": "So",
        "separator": "Z", "separator-space": "Zs", "separator-line": "Zl", "separator-paragraph": "Zp",
        "control": "C", "control-control": "Cc", "control-format": "Cf", "control-private": "Co"}
TOP = 0x1f000
def scalar(c): return not 0xd800 <= c < 0xe000

def tables():
    up, lo, ou, ol = {}, {}, {}, {}
    for c in range(TOP):
        if not scalar(c): continue
        ch = chr(c)
        for f, m, o in ((ch.upper(), up, ou), (ch.lower(), lo, ol)):
            if len(f) != 1:
                # a full mapping only: the simple one is not available here
                o[c] = {0x130: 0x69, 0x1e9e: 0xdf}.get(c, c)
                continue
            t = ord(f)
            if t == c: continue
            # settled if both characters are old, and this is not one of the special mappings
            settled = old.category(ch) != "Cn" and old.category(f) != "Cn" and old.category(ch) == unicodedata.category(ch)
            (m if settled else o)[c] = t
    for c in list(range(0x1f80, 0x2000)) + [0x345, 0x1e9e, 0xdf]:      # title-case and iota-subscript forms
        for m, o, f in ((up, ou, 0), (lo, ol, 1)):
            if c in m: o[c] = m.pop(c)
            elif c not in o: o[c] = c
    # title-case letters map to upper case in both tables of the standard: leave them as they are
    return up, lo, ou, ol

def sparse(d):
    a = [-1] * (max(d) + 1)
    for k, v in d.items(): a[k] = v
    return {"keys": sorted(d), "at": a}

def run(ctx):
    vf.build("d_unicode")
    ctx.model("CaseMap.tla", "CaseMap_big.cfg" if ctx.thorough else "CaseMap.cfg")
    up, lo, ou, ol = tables()
    ucd = os.path.join(ctx.work, "ucd.ndjson")
    with open(ucd, "w") as f: f.write(json.dumps({"upper": sparse(up), "lower": sparse(lo), "openu": sparse(ou), "openl": sparse(ol)}) + "\n")
    rng = ctx.rng("uni")
    # characters whose image by some special mapping is not known are left out of the sets
    bad = set(range(0x1f80, 0x2000)) | {0x345, 0x1e9e, 0xdf}
    interesting = sorted(set(up) | set(lo) | set(up.values()) | set(lo.values()))
    cases = []
    def avoid(a, b):
        r = []; s = a
        for c in range(a, b):
            if c in bad or not scalar(c):
                if s < c: r.append([s, c])
                s = c + 1
        if s < b: r.append([s, b])
        return r
    def setcase(rs):
        rs = [x for a, b in rs for x in avoid(a, b)]
        if rs: cases.append({"kind": "set", "set": rs})
    for base in range(0, 0x10800, 128):                       # every window of the planes that have case
        if base < 0x600 or any(base - 200 <= c < base + 300 for c in interesting): setcase([[base, base + 128]])
    for _ in range(ctx.scale(1200, 12000)):
        rs = []
        for _ in range(rng.randint(1, 4)):
            a = rng.choice(interesting) + rng.randint(-6, 6) if rng.random() < .85 else rng.randrange(0x11000)
            a = max(a, 0); rs.append([a, a + rng.choice([1, 1, 2, 3, 5, 9, 26, 40, 70])])
        setcase(rs)
    n_set = len(cases)
    # categories
    majors = ctx.scale(40, 400)
    wins = sorted({b for b in range(0, 0x3000, 512)} | {0xd600, 0xe000, 0xf800, 0xfa00, 0xfc00, 0xfe00, 0x4c00, 0x4e00, 0x9e00, 0xac00, 0x3400, 0x20000, 0x2a600, 0xf0000, 0x10fe00, 0x10400, 0x1d400, 0x1d600}
                  | {rng.randrange(0x110000 // 512) * 512 for _ in range(majors)})
    for name, cat in CATS.items():
        for b in wins:
            yes, opn = [], []
            for c in range(b, b + 512):
                if not scalar(c) or c == 0x180e: opn.append(c); continue      # U+180E changed category twice
                now, then = unicodedata.category(chr(c)), old.category(chr(c))
                if now == then and now != "Cn":
                    if now.startswith(cat): yes.append(c)
                elif now.startswith(cat) or (now != then and then != "Cn" and then.startswith(cat)): opn.append(c)
                elif now != then: opn.append(c)
            cases.append({"kind": "cat", "name": rng.choice(["u-", "uni-", "unicode-"]) + name, "lo": b, "hi": b + 512, "yes": yes, "open": opn})
    ctx.count("category_windows", len(cases) - n_set)
    # case-insensitive characters
    pick = [c for c in interesting if c not in bad] if ctx.thorough else rng.sample([c for c in interesting if c not in bad], 400)
    def closure(c):
        s = {c}
        while True:
            t = s | {m[x] for x in s for m in (up, lo, ou, ol) if x in m}
            if t == s: return s
            s = t
    # characters whose case forms have further case forms
    pick += [c for c in interesting if c not in bad and len(closure(c)) > 2 and c not in pick]
    special = {46, 40, 41, 42, 43, 63, 91, 93, 123, 125, 124, 92, 94}
    for c in pick + list(range(32, 127)):
        lit = rng.random() < .5 or c in special
        probe = {c, c + 1, max(c - 1, 0), up.get(c, c), lo.get(c, c), c ^ 32} | closure(c) | {rng.choice(interesting) for _ in range(8)}
        cases.append({"kind": "ci", "chr": c, "lit": lit, "probe": sorted(x for x in probe if scalar(x))})
    recs = ctx.drive("d_unicode", cases, "unicode")
    bad = ctx.judge("JUnicode.tla", "JUnicode.cfg", recs, "unicode", env={"UCD": ucd})
    ctx.confirm("d_unicode", bad, "unicode", "JUnicode.tla", "JUnicode.cfg", key=lambda c: c["kind"] + ":" + vf.hash_key([c.get("set"), c.get("name"), c.get("lo"), c.get("chr")]), jenv={"UCD": ucd})
