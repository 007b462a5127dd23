"""C07: hex / base64 / base32 / varint codecs stay inside the caller's buffers."""
import terms as t
from check import Case, announced
from interp import P
from spec import *
import c08
LEVEL = "other"
EXPLAIN = ("each codec is interpreted on unconstrained bytes with an input object of exactly the given length and an output object of exactly the size its own "
           "length helper returned in the same run; every load and store is an obligation (bounds, liveness, initialisation, writability)")
ASSUME = ["lengths are enumerated up to the listed bound plus lengths past 16-bit counters"]

def sized(st, name, n):
    o = st.new_obj(name, n, "out"); return P(o.id, 0)
def after_ok(env, st, o): o.ok()

def enc(fn, lenfn, n, extra=(), size=None):
    def build(env):
        src = env.input("in", n, vals=env.cyc("cyc", n) if n > 1000 else None)
        go = lambda env, x, I: [(y, [src, n, sized(y, "out", v)] + list(extra)) for y, v in announced(I, x)]
        if lenfn is None:
            return [src, n, env.output("out", size)] + list(extra)
        return [(lenfn, [n]), (fn, go)]
    return Case("%s n=%d %s" % (fn, n, extra or ""), fn, build, after_ok, cost=n)
def dec(fn, lenfn, n, doms, tag, withstr):
    def build(env):
        src = env.input("str", n, doms=doms, vals=env.cyc("cyc", n, dom=doms[0]) if tag == "legal" else None)
        go = lambda env, x, I: [(y, [src, n, sized(y, "out", v)]) for y, v in announced(I, x)]
        return [(lenfn, [src, n] if withstr else [n]), (fn, go)]
    return Case("%s n=%d %s" % (fn, n, tag), fn, build, after_ok, cost=n)

def cases(thorough, mod):
    out = []; full = range(256); noeq = [c for c in full if c != 61]
    L = list(range(0, 34 if not thorough else 90)) + [255, 256, 257, 300]
    big = [65537] if not thorough else [65537, 131075]
    for fn, lf, ex in (("fingera_to_hex", "w_to_hex_length", [0]), ("fingera_to_base64", "w_to_base64_length", []),
                       ("fingera_to_base64_urlsafe", "w_to_base64_urlsafe_length", []), ("fingera_to_base32", "w_to_base32_length", [])):
        for n in L + big: out.append(enc(fn, lf, n, ex))
    for n in L: out.append(enc("fingera_to_base32_raw", None, n, size=-(-n * 8 // 5)))
    for n in L:
        out.append(dec("fingera_from_hex", "w_from_hex_length", n, [full] * n, "any", False))
        out.append(dec("fingera_from_base64_urlsafe", "w_from_base64_urlsafe_length", n, [full] * n, "any", False))
        out.append(dec("fingera_from_base32_raw", "fingera_from_base32_raw_length", n, [full] * n, "any", False))
        for k in range(min(n, 3) + 1):
            d = [full] * (n - k - 1) + [noeq] * (1 if n > k else 0) + [[61]] * k if k < 3 else [full] * (n - 3) + [[61]] * 3
            out.append(dec("fingera_from_base64", "w_from_base64_length", n, d, "%d trailing '='" % k, True))
        for p in (range(n) if n < 26 else (0, 1, n - 9, n - 1)):
            out.append(dec("fingera_from_base32", "fingera_from_base32_length", n, [noeq] * p + [[61]] + [full] * (n - p - 1), "'=' at %d" % p, True))
        out.append(dec("fingera_from_base32", "fingera_from_base32_length", n, [noeq] * n, "no '='", True))
    for n in big:
        leg = [[65, 66]] * n
        out.append(dec("fingera_from_hex", "w_from_hex_length", n, leg, "legal", False))
        out.append(dec("fingera_from_base64_urlsafe", "w_from_base64_urlsafe_length", n, leg, "legal", False))
        out.append(dec("fingera_from_base64", "w_from_base64_length", n, leg, "legal", True))
        out.append(dec("fingera_from_base32", "fingera_from_base32_length", n, leg, "legal", True))
    out += c08.memory(thorough)
    return out
