"""C12: Bech32 encoding and decoding follow BIP173 for every string."""
import terms as t
from check import Case
from interp import P
from spec import *
LEVEL = "other"
EXPLAIN = ("the checksum is a linear map over GF(2): both the code's and BIP173's value graph reduce to sets of input bits per output bit, which are compared exactly.  Encoding is decided for symbolic "
           "prefixes and data; decoding is partitioned by the way a string can fail (illegal, mixed case, no separator, empty prefix, too short, too long, prefix larger than the caller's buffer, non-alphabet "
           "character at each position, first wrong checksum character) with every other character free, and by prefix and data length for the strings that must be accepted")
ASSUME = ["prefix and data lengths are enumerated up to the 90-character limit (all lengths near the limits, selected ones between)"]
GEN = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]
LOWP = [c for c in range(33, 127) if not 65 <= c <= 90]          # printable, no upper-case letter
UPP = [c for c in range(33, 127) if not 97 <= c <= 122]
LOWL = list(range(97, 123)); UPL = list(range(65, 91))
UBECH = BECH.upper()
LEGAL = list(range(33, 127)); ANY = range(256)

def _spread(b, g): return t.cat([(b if (g >> i) & 1 else 0, 1) for i in range(30)])
def polymod(vals):
    """BIP173 reference, over value graphs"""
    c = 1
    for v in vals:
        top = t.ext(c, 25, 5); c = t.bxor(t.cat([(0, 5), (t.ext(c, 0, 25), 25)]), widen(v, 8, 30), 30)
        for i in range(5): c = t.bxor(c, _spread(t.ext(top, i, 1), GEN[i]), 30)
    return c
def expand(hrp): return [t.lshr(c, 5, 8) for c in hrp] + [0] + [t.band(c, 31, 8) for c in hrp]
def lower(c):
    return (c + 32 if 65 <= c <= 90 else c) if type(c) is int else t.from_table(c.sym, [v + 32 if 65 <= v <= 90 else v for v in t.table(c, c.sym)], 8)
def checksum(hrp, vals):
    m = t.bxor(polymod(expand(hrp) + vals + [0] * 6), 1, 30)
    return [widen(t.ext(m, 5 * (5 - i), 5), 5, 8) for i in range(6)]

def enc(h, d):
    def build(env):
        p = env.input("hrp", h, dom=LOWP); v = env.input("values", d, dom=range(32))
        return [p, h, v, d, env.output("text", h + d + 7)]
    def spec(env, st, o):
        hrp = env.data["hrp"]; v = env.data["values"]
        want = hrp + [49] + [letter(BECH, x) for x in v + checksum(hrp, v)]
        for i, w in enumerate(want): o.eq("text[%d]" % i, st.rd("text", i), w)
    return Case("encode prefix %d data %d" % (h, d), "fingera_bech32_encode", build, spec, cost=h + d)

def string(env, cells):
    """cells: list of value terms / constants"""
    return env.input("str", len(cells), vals=cells)
def dec(label, mk, room, want, datalen=None, **kw):
    """mk(env) -> (cells, lower-cased hrp, values); want: True accept, False reject"""
    def build(env):
        cells, hrp, vals = mk(env); env.hrp, env.vals = hrp, vals
        n = len(cells)
        s = string(env, cells)
        hb = env.output("hrpbuf", room)
        z = env.st.new_obj("hrpsize", 8, "out")
        for i in range(8): z.cells[i] = (room >> (8 * i)) & 255
        return [s, n, hb, P(z.id, 0), env.output("b32", max(n - 7, 0) if datalen is None else datalen)]
    def spec(env, st, o):
        if not want:
            rv = st.rv
            if type(rv) is int:
                if rv >> 31 & 1: o.ok()
                else: o.fail("result", "accepted with %d data values" % rv, st.trace)
            else:
                neg = t.ext(rv, 31, 1); o.n += 1
                o.obl.append(("result is negative", neg, 1, 1, st.trace))
            return
        if type(st.rv) is not int or st.rv != len(env.vals): o.eq("result", st.rv, len(env.vals), 32, st.trace); return
        o.ok()
        for i, w in enumerate(env.hrp): o.eq("prefix[%d]" % i, st.rd("hrpbuf", i), w)
        o.untouched("beyond prefix", "hrpbuf", len(env.hrp), room)
        for i in range(8): o.eq("prefix length byte %d" % i, st.rd("hrpsize", i), (len(env.hrp) >> (8 * i)) & 255)
        for i, w in enumerate(env.vals): o.eq("value[%d]" % i, st.rd("b32", i), w)
    return Case("decode " + label, "fingera_bech32_decode", build, spec, **kw)

def good(env, h, d, up, wrong=None, hdom=None, data_is=None):
    """a string whose checksum is right, or whose first wrong checksum character is `wrong`"""
    A = UBECH if up else BECH
    hd = [env.sy("h[%d]" % i, (hdom[i] if hdom else None) or (UPP if up else LOWP)) for i in range(h)]
    v = [env.sy("v[%d]" % i, range(32)) for i in range(d)]
    low = [lower(c) for c in hd]
    ck = checksum(low, v)
    if wrong is not None:
        e = [0] * wrong + [env.sy("e[%d]" % wrong, range(1, 32))] + [env.sy("e[%d]" % i, range(32)) for i in range(wrong + 1, 6)]
        ck = [t.bxor(c, x, 8) for c, x in zip(ck, e)]
    return hd + [49] + [letter(A, x) for x in v + ck], low, v

def cases(thorough, mod):
    out = []
    D = list(range(0, 13)) + [20, 32, 33, 39, 52, 53, 65, 66, 82]
    for h in (1, 2, 3, 4, 5, 8, 12, 20, 40, 83):
        for d in (D if h < 5 or thorough else [0, 1, 8, 20, 33]):
            if h + d <= 83 or h < 5: out.append(enc(h, d))
    # strings that must be accepted
    L = []
    for h in (1, 2, 3, 4, 7, 15, 16, 17) + ((5, 8, 9, 31, 32, 33) if thorough else ()):
        for d in (list(range(0, 12)) + [19, 20, 31, 32, 33, 39, 45, 52, 53, 60, 83 - h] if h < 5 or thorough else [0, 1, 2, 8, 33, 83 - h]): L.append((h, d))
    for h in (30, 60, 76, 82, 83): L += [(h, 0), (h, 83 - h)] + ([(h, 1)] if h < 83 else [])
    for h, d in sorted(set(L)):
        for up in (0, 1):
            if up and d > 8 and not thorough and h + d < 83: continue
            big = h > 6
            def mk(env, h=h, d=d, up=up, big=big):
                # long prefixes: one free character per position class keeps the state small
                return good(env, h, d, up, hdom=[[UPL if up else LOWL, [49], None][i % 3] for i in range(h)] if big else None)
            for room in sorted({h, 16} if h <= 16 else {h, 90}):
                if room != h and d not in (0, 3, 33): continue
                out.append(dec("valid %s prefix %d data %d, room %d" % (("lower", "upper")[up], h, d, room), mk, room, True, cost=h + d))
                if room == h:
                    for j in range(6) if d in (0, 1, 5, 33, 39) or h + d == 83 else (d % 6,):
                        if not up: out.append(dec("wrong checksum character %d, prefix %d data %d" % (j, h, d), lambda env, mk=mk, j=j, h=h, d=d, up=up, big=big: good(env, h, d, up, j, hdom=[[LOWL, [49], None][i % 3] for i in range(h)] if big else None), room, False, cost=h + d))
                    for r in sorted({0, h - 1}): out.append(dec("valid prefix %d data %d does not fit %d" % (h, d, r), mk, r, False))
    # over-long strings with right checksums
    for h, d in ((1, 83), (2, 82), (3, 81), (3, 120), (83, 1), (84, 0), (10, 74), (1, 160), (1, 249), (3, 248), (3, 503)):
        out.append(dec("too long: prefix %d data %d" % (h, d), lambda env, h=h, d=d: good(env, h, d, 0, hdom=[[97, 98, 99]] * h), max(h, 16), False, cost=h + d))
    # too short: fewer than six characters after the separator, any separator position
    for n in range(0, 8):
        out.append(dec("%d characters, anything" % n, lambda env, n=n: ([env.sy("c[%d]" % i) for i in range(n)], [], []), 90, False) if n < 3 else
                   dec("%d legal lower-case characters" % n, lambda env, n=n: ([env.sy("c[%d]" % i, LOWP) for i in range(n)], [], []), 90, False))
    for n in (8, 9, 14, 20, 42, 62, 90):
        for k in range(0, 6):
            if k + 1 <= n: out.append(dec("last separator %d from the end of %d" % (k, n), lambda env, n=n, k=k: ([env.sy("c[%d]" % i, [97, 98, 122, 48] + ([49] if i % 5 == 0 else [])) for i in range(n - k - 1)] + [49] + [env.sy("d[%d]" % i, BECH) for i in range(k)], [], []), 90, False, cost=n))
        out.append(dec("empty prefix, %d characters" % n, lambda env, n=n: ([49] + [env.sy("d[%d]" % i, BECH) for i in range(n - 1)], [], []), 90, False, cost=n))
        out.append(dec("no separator in %d characters" % n, lambda env, n=n: ([env.sy("d[%d]" % i, [c for c in LOWP if c != 49]) for i in range(n)], [], []), 90, False, cost=n))
    # empty prefix with a right checksum
    for d in (1, 3, 33): out.append(dec("empty prefix, right checksum, data %d" % d, lambda env, d=d: good(env, 0, d, 0), 16, False))
    # an illegal character anywhere (checksum of the rest right for the character as it stands)
    bad = [c for c in range(256) if not 33 <= c <= 126]
    for h, d in ((1, 0), (2, 5), (3, 33), (10, 10)):
        n = h + d + 7
        for p in range(n) if n < 20 or thorough else sorted({0, h - 1, h + 1, h + 2, n - 7, n - 6, n - 1, n // 2}):
            def mk(env, h=h, d=d, p=p, n=n):
                x = env.sy("bad", bad)
                if p < h: return good_with(env, h, d, p, x)
                c, hr, v = good(env, h, d, 0, hdom=[LOWL] * h)
                c[p] = x; return c, hr, v
            if p != h: out.append(dec("illegal byte at %d, prefix %d data %d" % (p, h, d), mk, 90, False, cost=n))
    # legal but outside the alphabet, after the separator
    for up, LEG, A, LET in ((0, LOWP, BECH, LOWL), (1, UPP, UBECH, UPL)):
        nal = [c for c in LEG if c not in A and c != 49]
        for h, d in ((1, 0), (2, 5), (3, 33), (4, 53)):
            n = h + d + 7
            for p in range(h + 1, n):
                def mk(env, h=h, d=d, p=p, up=up, nal=nal, LET=LET):
                    c, hr, v = good(env, h, d, up, hdom=[LET] * h); c[p] = env.sy("bad", nal); return c, hr, v
                out.append(dec("character outside the %s-case alphabet at %d, prefix %d data %d" % (("lower", "upper")[up], p, h, d), mk, 90, False, cost=n))
    # mixed case, checksum right for the lower-cased text
    for h, d in ((1, 1), (2, 5), (3, 33)):
        n = h + d + 7; pos = [i for i in range(n) if i != h]
        for a in pos:
            for b in (pos if n < 12 else sorted({0, h - 1, h + 1, h + 2, h + d, h + d + 1, n - 1, (a * 7 + 3) % n} - {h})):
                if a == b: continue
                def mk(env, h=h, d=d, a=a, b=b): return mixed(env, h, d, a, b)
                out.append(dec("upper case at %d, lower case at %d, prefix %d data %d" % (a, b, h, d), mk, 90, False, cost=n))
    return out
AL = [i for i in range(32) if chr(BECH[i]).isalpha()]
def mixed(env, h, d, up, lo):
    hd = [env.sy("h[%d]" % i, UPL if i == up else LOWL if i == lo else None or LOWP + UPL) for i in range(h)]
    low = [lower(c) for c in hd]
    v = [env.sy("v[%d]" % i, AL if i + h + 1 in (up, lo) else range(32)) for i in range(d)]
    ck = checksum(low, v)
    out = hd + [49]
    for i, x in enumerate(v + ck):
        k = h + 1 + i
        if k in (up, lo) and i >= d: x = env.sy("k[%d]" % i, AL)     # checksum position: any letter
        out.append(letter(UBECH if k == up else BECH, x))
    return out, low, v
def good_with(env, h, d, p, x):
    hd = [x if i == p else env.sy("h[%d]" % i, LOWL) for i in range(h)]
    low = [lower(c) for c in hd]
    v = [env.sy("v[%d]" % i, range(32)) for i in range(d)]
    return hd + [49] + [letter(BECH, y) for y in v + checksum(low, v)], low, v
