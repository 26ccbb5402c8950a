"""P05: UTF-8 input is decoded to the UTF-16 units of the same text."""
import vf

def enc(c): return list(chr(c).encode("utf-8"))
def scalar(rng):
    r = rng.random()
    if r < .2: return rng.randrange(128)
    if r < .4: return rng.randrange(128, 2048)
    if r < .65:
        c = rng.randrange(2048, 65536)
        return c if not 0xd800 <= c < 0xe000 else 0xe000
    return rng.randrange(65536, 0x110000)
EDGE = [0, 1, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0x3ffff,
        0x40000, 0x7ffff, 0x80000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]

def run(ctx):
    vf.build("d_utf8")
    ctx.model("Utf8MC.tla", "Utf8MC_big.cfg" if ctx.thorough else "Utf8MC.cfg")
    rng = ctx.rng("utf8")
    cases = []
    # every code point (thorough), or every 64th block and the neighbourhood of every length boundary (quick)
    n = 0
    for base in range(0, 0x110000, 64):
        near = any(abs(base + 32 - e) <= 96 for e in EDGE)
        if not ctx.thorough and not near and rng.random() > .03: continue
        cps = [c for c in range(base, base + 64) if not 0xd800 <= c < 0xe000]
        n += len(cps)
        if cps: cases.append({"bytes": [b for c in cps for b in enc(c)]})
    ctx.count("code_points_decoded", n)
    ctx.count("exhaustive_code_points", 1 if ctx.thorough else 0)
    for _ in range(ctx.scale(4000, 40000)):
        b = []
        for _ in range(rng.randint(0, 8)): b += enc(rng.choice(EDGE) if rng.random() < .4 else scalar(rng))
        if rng.random() < .5 and b:          # damage it
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(b)) if b else 0
                r = rng.random()
                if not b: break
                if r < .35: del b[k]
                elif r < .7: b[k] = rng.choice([0x80, 0xbf, 0xc2, 0xdf, 0xe1, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff, 0x41, rng.randrange(256)])
                elif r < .85: b = b[:k]
                else: b.insert(k, rng.randrange(128, 256))
        cases.append({"bytes": b})
    for a in range(256):                      # every pair of lead byte and second byte class
        for s in ([], [0x41], [0x80], [0xbf], [0xc0], [0x7f], [0xff], [0x80, 0x80], [0xbf, 0xbf], [0x90, 0x80, 0x80], [0x8f, 0xbf, 0xbf], [0x80, 0x80, 0x80], [0x80, 0x41], [0xbf, 0xbf, 0x41]):
            cases.append({"bytes": [0x61, a] + s + [0x62]})
            cases.append({"bytes": [0x61, a] + s})
    recs = ctx.drive("d_utf8", cases, "utf8")
    bad = ctx.judge("JUtf8.tla", "JUtf8.cfg", recs, "utf8")
    ctx.confirm("d_utf8", bad, "utf8", "JUtf8.tla", "JUtf8.cfg")
