"""C09: Base58 decoding is strict and preserves leading zeros."""
import terms as t
from terms import T
from check import Case
from interp import P
from spec import *
LEVEL = "other"
EXPLAIN = ("both conversions are interpreted over symbolic inputs, partitioned by the number of leading zeros ('1's), the number of digits, white space before and after, an embedded NUL and the position "
           "and class of an illegal character; the digit cells of the carry loop are intervals, so the arithmetic itself stays abstract: decided are the returned count, the zero/'1' correspondence, "
           "membership of every emitted character in the alphabet, a non-zero first digit after the zeros, and that an illegal character anywhere yields nothing")
ASSUME = ["C locale character classes", "lengths are enumerated up to the listed bound", "that the digit count suffices for every value is decided at the largest value of each length (C10)"]
A58 = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
WS = [9, 10, 11, 12, 13, 32]
DIG = sorted(A58); NZ = [c for c in DIG if c != 49]
ILL = [c for c in range(256) if c not in A58 and c not in WS and c != 0]

def values(I, st, v):
    """possible values of a byte, or None"""
    if type(v) is int: return [v]
    if v.sym is not None: return I.values(st, v)
    x = v.a[0][0] if v.op == "cat" and len(v.a) == 2 and v.a[1][0] == 0 and type(v.a[1][0]) is int else v
    if type(x) is T and x.op == "lut":
        vs, l, ix = x.a; a, b = I.rngq(st, ix)
        return sorted(set(vs[max(a - l, 0):b - l + 1]))
    return I.values(st, v)

def to_case(z, n):
    def build(env):
        doms = [[0]] * z + ([range(1, 256)] if n else []) + [None] * (n - 1)
        p = env.input("in", z + n, doms=doms)
        env.cap = (z + n) * 138 // 100 + 2
        return [p, z + n, env.output("str", env.cap)]
    def spec(env, st, o):
        if st.end == "assert": o.ok(); return
        r = st.rv
        if type(r) is not int: o.fail("count", "not determined"); return
        if r < z + (1 if n else 0): o.fail("count", "%d characters for %d zero bytes and %d more" % (r, z, n), st.trace); return
        if r > env.cap: o.fail("count", "%d exceeds the announced %d" % (r, env.cap)); return
        if not n and r != z: o.fail("count", "%d characters for %d zero bytes" % (r, z)); return
        for i in range(z): o.eq("text[%d]" % i, st.rd("str", i), 49)
        for i in range(z, r):
            v = st.rd("str", i)
            if v is None: o.fail("text[%d]" % i, "not written"); return
            vs = values(env.I, st, v)
            if vs is None: o.n += 1; o.obl.append(("text[%d] is in the alphabet" % i, inset(v, A58), 1, 1, None)); continue
            bad = [c for c in vs if c not in A58 or (i == z and c == 49)]
            if bad: o.n += 1; o.obl.append(("text[%d] %s" % (i, "is in the alphabet and not a leading 1" if i == z else "is in the alphabet"), inset(v, NZ if i == z else A58), 1, 1, None))
            else: o.ok()
        o.untouched("beyond", "str", r, env.cap)
    return Case("to_base58 %d zero bytes + %d" % (z, n), "fingera_to_base58", build, spec, ends=("ret", "assert"), cost=n * n)
def inset(v, s):
    r = 0
    for c in s: r = t.bor(r, t.eq(v, c, 8), 1)
    return r

def from_case(label, cls, want, limit=None):
    """cls: list of byte domains; want: None (illegal) or (zeros, digits)"""
    n = len(cls)
    def build(env):
        p = env.input("text", n, doms=cls)
        env.cap = n
        return [p, n, env.output("out", env.cap)]
    def spec(env, st, o):
        if st.end == "assert": o.ok(); return
        r = st.rv
        if want is None: o.ret(0, label="decoded length of illegal text"); return
        z, k = want
        if type(r) is not int: o.fail("count", "not determined"); return
        if r < z + (1 if k else 0) or (not k and r != z): o.fail("count", "%d bytes for %d leading '1's and %d more digits" % (r, z, k), st.trace); return
        for i in range(z): o.eq("out[%d]" % i, st.rd("out", i), 0)
        for i in range(z, r):
            v = st.rd("out", i)
            if v is None: o.fail("out[%d]" % i, "not written"); return
            o.ok()
        if r > z:
            v = st.rd("out", z); d = env.I.decide(st, t.eq(v, 0, 8))
            if d != 0: o.n += 1; o.obl.append(("out[%d] is not zero" % z, t.eq(v, 0, 8), 0, 1, None))
            else: o.ok()
        o.untouched("beyond", "out", r, env.cap)
    return Case("from_base58 " + label, "fingera_from_base58", build, spec, ends=("ret", "assert"), cost=n * n)

def shapes(thorough):
    K = list(range(0, 13)) + [20, 25, 34] + ([40, 52] if thorough else [])
    for z in (0, 1, 2, 5):
        for k in K:
            dig = ([NZ] if k else []) + [DIG] * (k - 1)
            if z and k > 12 and not thorough: continue
            yield "1*%d digits*%d" % (z, k), [[49]] * z + dig, (z, k)
            if k in (0, 1, 4, 8):
                for a, b in ((1, 0), (0, 1), (3, 2)):
                    yield "ws*%d 1*%d digits*%d ws*%d" % (a, z, k, b), [WS] * a + [[49]] * z + dig + [WS] * b, (z, k)
                yield "1*%d digits*%d NUL anything" % (z, k), [[49]] * z + dig + [[0], None, None], (z, k)
                yield "ws 1*%d digits*%d ws NUL anything" % (z, k), [WS] + [[49]] * z + dig + [WS, [0], None, None], (z, k)
                if k + z: yield "1*%d digits*%d ws then text" % (z, k), [[49]] * z + dig + [WS, DIG + ILL], None
    for n in list(range(1, 12)) + ([20, 35] if not thorough else [20, 35, 50]):
        for p in sorted(set(range(n)) if n < 12 else {0, 1, n // 2, n - 1}):
            yield "illegal at %d of %d" % (p, n), [DIG] * p + [ILL] + [None] * (n - p - 1), None
    for a in (1, 2):
        yield "ws*%d illegal" % a, [WS] * a + [ILL], None
        yield "digits ws*%d illegal" % a, [DIG] * 3 + [WS] * a + [ILL], None
        yield "digits ws*%d illegal then more" % a, [DIG] * 2 + [WS] * a + [ILL] + [None] * 3, None
    yield "white space only", [WS] * 3, (0, 0)
def cases(thorough, mod):
    out = []
    N = list(range(0, 13)) + [20, 25, 33] + ([40, 50, 82] if thorough else [])
    for z in (0, 1, 2, 7):
        for n in N:
            if z and n > 12 and not thorough: continue
            out.append(to_case(z, n))
    for z in (127, 128, 129, 300): out.append(to_case(z, 0)); out.append(to_case(z, 2))
    for l, c, w in shapes(thorough): out.append(from_case(l, c, w))
    return out
