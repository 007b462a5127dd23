"""C10: Base58 and Base58Check never leave the buffers they are given."""
import random
import terms as t
from check import Case
from spec import *
import c09
from c09 import DIG, NZ, ILL, WS
LEVEL = "other"
EXPLAIN = ("Base58 and Base58Check encoding and decoding are interpreted with exact-size input and output objects (the size the matching length helper announces, computed by the helper itself); every load, "
           "store, block copy and release carries a bounds, initialisation and liveness obligation, and every block the call allocates must have been released exactly once when it returns.  Inputs: all "
           "partitions of C09, unconstrained bytes, stack and heap sized scratch, the largest value of every length (where the digit buffer is tightest)")
ASSUME = ["allocation succeeds (C34 takes the other outcome)", "lengths are enumerated up to the listed bound; the digit cells are intervals"]

def noleak(st, o, what="return"):
    for oid, x in st.mem.items():
        if x.kind == "heap":
            if x.alive: o.fail("scratch memory", "block allocated at %s:%s is not released at %s" % ((x.meta or ("?", "?", 0))[1], (x.meta or ("?", "?", 0))[2], what), st.trace); return
            o.ok()
def safe(label, fn, build, helper, hargs, ends=("ret",), **kw):
    """one call with outputs of the announced size"""
    def spec(env, st, o):
        o.ok(); noleak(st, o)
        if type(st.rv) is int and st.rv > env.cap: o.fail("count", "%d exceeds the announced %d" % (st.rv, env.cap), st.trace)
    def go(env, x, I):
        from check import announced
        out = []
        for y, m in announced(I, x):
            env.cap = m; y.new_obj("out", m, "out")
            env.st = y
            out.append((y, build(env)))
        return out
    return Case(label, fn, lambda env: [(helper, hargs), (fn, go)], spec, ends=ends, **kw)
def buf_in(env, vals, name="in", ro=True):
    return env.input(name, len(vals), vals=[v if type(v) is int else None for v in vals], doms=[None if type(v) is int else v for v in vals], ro=ro)
from interp import P
def to58(label, vals, ends=("ret",), **kw):
    n = len(vals)
    return safe("to_base58 " + label, "fingera_to_base58", lambda env: [buf_in(env, vals), n, P(t.PHASE[0] + "out", 0)], "w_to_base58_length", [n], ends, cost=n, **kw)
def from58(label, vals, ends=("ret",), **kw):
    n = len(vals)
    return safe("from_base58 " + label, "fingera_from_base58", lambda env: [buf_in(env, vals), n, P(t.PHASE[0] + "out", 0)], "w_from_base58_length", [n], ends, cost=n, **kw)
def tochk(label, vals, pre, ends=("ret",), **kw):
    n = len(vals)
    return safe("to_base58_check " + label, "fingera_to_base58_check", lambda env: [buf_in(env, vals), n, buf_in(env, pre, "prefix"), len(pre), P(t.PHASE[0] + "out", 0)], "w_to_base58_check_length", [n, len(pre)], ends, cost=n, models=HASH_MODELS, **kw)
def fromchk(label, vals, ends=("ret",), **kw):
    n = len(vals)
    return safe("from_base58_check " + label, "fingera_from_base58_check", lambda env: [buf_in(env, vals), n, P(t.PHASE[0] + "out", 0)], "w_from_base58_check_length", [n], ends, cost=n, models=HASH_MODELS, **kw)

A = ("ret", "assert")     # whether the digit buffer can be too small is decided at the largest values
def cases(thorough, mod):
    out = []; R = random.Random(10); B = range(256)
    for z in (0, 1, 2, 7):
        for n in list(range(0, 13)) + ([20, 33] if z == 0 else []): out.append(to58("%d zero bytes + %d free" % (z, n), [0] * z + ([range(1, 256)] + [B] * (n - 1) if n else []), A))
    for n in (1, 2, 3, 4): out.append(to58("%d free bytes" % n, [B] * n, A)); out.append(from58("%d free characters" % n, [B] * n, A))
    for l, c, w in c09.shapes(thorough): out.append(from58(l, [x[0] if x is not None and len(x) == 1 else (x if x is not None else B) for x in c], A))
    top = 140 if not thorough else 420
    for n in list(range(0, top)) + [255, 256, 300]:
        out.append(to58("largest of %d" % n, [255] * n)); out.append(from58("largest of %d" % n, [122] * n))
        if n < 12 or n % 7 == 0 or 120 < n < 135 or 171 < n < 178:
            out.append(to58("zeros %d" % n, [0] * n)); out.append(from58("ones %d" % n, [49] * n))
            out.append(to58("%d mixed" % n, [R.randrange(256) for i in range(n)], A)); out.append(from58("%d mixed" % n, [R.choice(DIG) for i in range(n)], A))
            out.append(tochk("largest of %d" % n, [255] * n, [255])); out.append(tochk("largest of %d, no prefix" % n, [255] * n, [])); out.append(tochk("largest of %d, 8-byte prefix" % n, [255] * n, [255] * 8))
            out.append(fromchk("largest of %d" % n, [122] * n)); out.append(fromchk("ones %d" % n, [49] * n)); out.append(from58("spaces %d" % n, [32] * n))
    # heap-sized scratch: fixed prefix, free tail, illegal tails, tails after white space
    for n in (92, 93, 94, 100, 120, 124, 128, 130, 173, 174, 175, 176, 180, 200, 256):
        for nm, x in (("ff", [255] * n), ("1", [1] + [0] * (n - 1))):
            out.append(to58("%d bytes %s.. and 2 free" % (n, nm), x[:n - 2] + [B, B], A))
            out.append(tochk("%d bytes %s.. and a free byte" % (n, nm), x[:n - 1] + [B], [128], A))
        z = [122] * n
        for nm, tail in (("2 digits", [DIG, DIG]), ("illegal", [ILL]), ("digit illegal", [DIG, ILL]), ("space", [WS]), ("space digit", [WS, DIG]), ("space illegal", [WS, ILL]), ("NUL", [[0]]), ("anything", [B])):
            out.append(from58("%d digits, then %s" % (n, nm), z + tail, A)); 
            if n % 4 == 0: out.append(fromchk("%d digits, then %s" % (n, nm), z + tail, A))
        out.append(from58("illegal then %d more" % n, [ILL] + z)); out.append(from58("%d illegal inside" % n, z[:n // 2] + [ILL] + z[n // 2:]))
        out.append(from58("%d ones, 2 digits" % n, [49] * n + [DIG, DIG], A))
    for n in range(0, 9): out.append(fromchk("%d free digits" % n, [DIG] * n, A)); out.append(tochk("%d free bytes" % n, [B] * n, [B, B], A))
    for n in (0, 1, 2): out.append(fromchk("%d free characters" % n, [B] * n, A))
    return out
