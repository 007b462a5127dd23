"""C31: Base58 conversion preserves the numeric value."""
import terms as t, random
from terms import T, M
import check
from check import Case, SEED
from c09 import A58, DIG, NZ
LEVEL = "other"
EXPLAIN = ("both conversions are interpreted without joins and the value of the produced digits is rewritten to a linear form over the input (quotient and remainder of a division recombine, truncated "
           "sums are expanded where the path's ranges exclude wrap-around); on every path it must be identical to the value of the input.  Inputs: every byte string of up to 4 bytes and text of up to 5 "
           "characters, and longer ones with a fixed prefix and a symbolic tail, plus the largest value of every length up to 140 bytes and digits (320 in the thorough tier) and four shapes of fixed values of selected lengths up to 1030 (2100)")
ASSUME = ["inputs with more than the stated number of symbolic bytes are covered through their fixed-prefix representatives only"]
VAL = {c: i for i, c in enumerate(A58)}

class Lin(object):
    """integer linear form: constant + sum of per-symbol functions + coefficients of opaque quotients"""
    def __init__(s, I, st): s.I = I; s.st = st; s.memo = {}
    def form(s, v):
        if type(v) is int: return (v, {}, {})
        r = s.memo.get(v)
        if r is None: r = s.memo[v] = s.mk(v)
        return r
    def comb(s, parts):
        c = 0; f = {}; q = {}
        for k, (c1, f1, q1) in parts:
            c += k * c1
            for sy, tb in f1.items():
                o = f.get(sy); f[sy] = tuple(k * x for x in tb) if o is None else tuple(a + k * x for a, x in zip(o, tb))
            for a, n in q1.items():
                n = q.get(a, 0) + k * n
                if n: q[a] = n
                else: q.pop(a, None)
        return (c, f, q)
    def mk(s, v):
        l, h = s.I.rngq(s.st, v)
        if l == h: return (l, {}, {})
        if v.sym is not None: return (0, {v.sym: tuple(t.table(v, v.sym))}, {})
        op = v.op
        if op == "cat":
            p = []; o = 0
            for x, n in v.a: p.append((1 << o, s.form(x))); o += n
            return s.comb(p)
        if op == "add":
            w = v.w; l = h = t._signed(v.a[1], w); p = [(1, (l, {}, {}))]
            for k, y in v.a[0]:
                k = t._signed(k, w); a, b = s.I.rngq(s.st, y)
                l += k * (a if k >= 0 else b); h += k * (b if k >= 0 else a); p.append((k, s.form(y)))
            if l >= 0 and h <= M[w]: return s.comb(p)
        if op == "urem" and type(v.a[1]) is int:
            x, c = v.a; return s.comb([(1, s.form(x)), (-c, s.form(t.udiv(x, c, x.w)))])
        if op == "ext":
            x, k = v.a; l, h = s.I.rngq(s.st, x)
            if k == 0:
                if h >> v.w == 0: return s.form(x)
                return s.comb([(1, s.form(x)), (-(1 << v.w), s.high(x, v.w))])
            if h >> (k + v.w) == 0: return s.high(x, k)
            return s.comb([(1, s.high(x, k)), (-(1 << v.w), s.high(x, k + v.w))])
        return (0, {}, {v: 1})
    def high(s, x, k):
        """x >> k"""
        y = t.ext(x, k, x.w - k)
        if type(y) is int: return (y, {}, {})
        if type(y) is T and y.sym is not None: return s.form(y)
        l, h = s.I.rngq(s.st, x)
        if h >> k == l >> k: return (h >> k, {}, {})
        return (0, {}, {(x, k): 1})
    def canon(s, form):
        c, f, q = form; g = {}
        for sy, tb in f.items():
            m = s.st.mask(sy); r = [x for x, val in zip(tb, sy.tab) if (m >> val) & 1]
            b = r[0] if r else 0; c += b
            if any(x != b for x in r): g[sy] = tuple(x - b for x in r)
        return (c, g, q)

def digit(v):
    """index of an output character in the alphabet"""
    if type(v) is int: return VAL.get(v)
    if v.sym is not None:
        tb = [VAL.get(x) for x in t.table(v, v.sym)]
        if None in tb: tb = [99 if x is None else x for x in tb]
        return t.from_table(v.sym, tb, 8)
    parts = v.a if v.op == "cat" else [(v, 8)]
    ts = [x for x, n in parts if type(x) is T]
    if len(ts) == 1 and ts[0].op == "lut":
        vs, lo, ix = ts[0].a; ch = []
        for q in vs:
            c = o = 0
            for x, n in parts: c |= (q if type(x) is T else x) << o; o += n
            ch.append(VAL.get(c, 99))
        if ch == list(range(lo, lo + len(vs))): return ix
        return t.lut([0] * lo + ch, ix, 8)
    return v

def compare(env, st, o, got, gbase, want, wbase, what):
    I = env.I; L = Lin(I, st)
    if any(g is None for g in got): o.fail(what, "output not fully written", st.trace); return
    g = L.canon(L.comb([(gbase ** (len(got) - 1 - i), L.form(x)) for i, x in enumerate(got)]))
    w = L.canon(L.comb([(wbase ** (len(want) - 1 - i), L.form(x)) for i, x in enumerate(want)]))
    if g == w: o.ok(); return
    if all(type(x) is int for x in list(got) + list(want)): o.fail(what, "is %d instead of %d" % (g[0], w[0]), st.trace); return
    # not identical as linear forms: look for an input of this path that shows a difference
    S = check.sampler(st, 200, SEED, env); ok = check.valid(S, st)
    gv = [S.ev(x) if type(x) is T else [x] * S.n for x in got]; wv = [S.ev(x) if type(x) is T else [x] * S.n for x in want]
    some = False
    for i in range(S.n):
        if not ok[i]: continue
        some = True; a = b = 0
        for x in gv: a = a * gbase + int(x[i])
        for x in wv: b = b * wbase + int(x[i])
        if a != b: o.fail(what, "is %d instead of %d" % (a, b), st.trace); return
    env.soft = getattr(env, "soft", 0) + 1; o.ok()

def soft(I, env, states, r):
    k = getattr(env, "soft", 0)
    if k: r.und.append("%s: value not decided symbolically on %d path(s)" % (env.case.label, k))
NOJ = dict(opts=dict(merge=False, max_states=60000), after=soft, time=200)
BIG = dict(NOJ, opts=dict(merge=False, max_states=60000, max_steps=1 << 28))
def to_case(label, vals):
    """vals: constants or value lists"""
    n = len(vals)
    def build(env):
        p = env.input("in", n, vals=[v if type(v) is int else None for v in vals], doms=[None if type(v) is int else v for v in vals])
        return [p, n, env.output("str", n * 138 // 100 + 2)]
    def spec(env, st, o):
        if type(st.rv) is not int: o.fail("length", "not determined"); return
        d = [st.rd("str", i) for i in range(st.rv)]
        compare(env, st, o, [None if x is None else digit(x) for x in d], 58, env.data["in"], 256, "value of the text")
    return Case("to_base58 " + label, "fingera_to_base58", build, spec, cost=n + 50 * sum(type(v) is not int for v in vals), **(NOJ if n < 300 else BIG))
def from_case(label, vals):
    n = len(vals)
    def build(env):
        p = env.input("text", n, vals=[v if type(v) is int else None for v in vals], doms=[None if type(v) is int else v for v in vals])
        return [p, n, env.output("out", n)]
    def spec(env, st, o):
        if type(st.rv) is not int: o.fail("length", "not determined"); return
        compare(env, st, o, [st.rd("out", i) for i in range(st.rv)], 256, [digit(x) for x in env.data["text"]], 58, "value of the bytes")
    return Case("from_base58 " + label, "fingera_from_base58", build, spec, cost=n + 50 * sum(type(v) is not int for v in vals), **(NOJ if n < 300 else BIG))
def cases(thorough, mod):
    out = []; B = list(range(256)); NB = list(range(1, 256)); R = random.Random(58)
    K = 5 if thorough else 4
    for n in range(0, K + 1): out.append(to_case("all of %d bytes" % n, ([NB] + [B] * (n - 1)) if n else []))
    for n in range(0, K + 2): out.append(from_case("all of %d digits" % n, ([NZ] + [DIG] * (n - 1)) if n else []))
    out.append(to_case("0 0 and 2 bytes", [0, 0, NB, B])); out.append(from_case("1 1 and 2 digits", [49, 49, NZ, DIG]))
    L = (4, 5, 8, 13, 20, 25, 32, 37, 50, 82, 92, 93, 100) + ((127, 128, 129, 200, 260) if thorough else (130,))
    for n in L:
        for nm, pre in (("ff", [255] * n), ("01 00", [1] + [0] * (n - 1)), ("mixed", [R.randrange(1, 256) for i in range(n)])):
            out.append(to_case("%d bytes %s.. and 2 free" % (n, nm), pre[:n - 2] + [B, B]))
        for nm, pre in (("z", [122] * n), ("2 1", [50] + [49] * (n - 1)), ("mixed", [R.choice(NZ) for i in range(n)])):
            out.append(from_case("%d digits %s.. and 2 free" % (n, nm), pre[:n - 2] + [DIG, DIG]))
    for n in list(range(1, 141 if not thorough else 320)):
        out.append(to_case("largest of %d bytes" % n, [255] * n)); out.append(from_case("largest of %d digits" % n, [122] * n))
    for n in (150, 180, 220, 260, 300, 400, 520, 700, 1030) + ((1500, 2100) if thorough else ()):
        for nm, pre in (("ff", [255] * n), ("01 00", [1] + [0] * (n - 1)), ("sparse", [1 if i % 23 == 0 else 0 for i in range(n)]), ("mixed", [R.randrange(1, 256) for i in range(n)])):
            out.append(to_case("%d bytes %s" % (n, nm), pre))
        for nm, pre in (("z", [122] * n), ("2 1", [50] + [49] * (n - 1)), ("sparse", [50 if i % 23 == 0 else 49 for i in range(n)]), ("mixed", [R.choice(NZ) for i in range(n)])):
            out.append(from_case("%d digits %s" % (n, nm), pre))
    return out
