"""C06: hex / base64 / base32 decoders invert the encoders and reject everything else."""
import terms as t
from check import Case
from spec import *
LEVEL = "other"
EXPLAIN = ("decoders are interpreted over a partition of all strings by the position and kind of the first character outside the alphabet; in every "
           "partition the returned count and every output cell are compared with the bit regrouping of the legal characters")
ASSUME = ["string lengths are enumerated up to the listed bound"]

def vals(alpha, fold):
    m = {c: i for i, c in enumerate(alpha)}
    if fold:
        for c, i in list(m.items()):
            ch = chr(c)
            if ch.isalpha(): m[ord(ch.upper())] = i; m[ord(ch.lower())] = i
    return m
RAW = {i: i for i in range(32)}
# name, value map, bits per character, characters per group, '=' handling
FMT = [("fingera_from_hex", vals(HEXL, True), 4, 2, None),
       ("fingera_from_base64", vals(B64, False), 6, 4, "tail"),
       ("fingera_from_base64_urlsafe", vals(B64U, False), 6, 4, None),
       ("fingera_from_base32", vals(B32, True), 5, 8, "cut"),
       ("fingera_from_base32_raw", RAW, 5, 8, None)]

def decoded(chars, m, k):
    vs = []
    for c in chars:
        v = m[c] if type(c) is int else t.from_table(c, [m[x] for x in c.tab], 8)
        vs.append(t.ext(v, 0, k))
    return regroup(vs, 8, w=k, pad=False)

def dec_case(fn, m, k, g, n, good, doms, tag, exact):
    """the first `good` characters are legal, then doms; exact: all of the text is consumed"""
    legal = sorted(m)
    def build(env):
        src = env.input("str", n, doms=[legal] * good + doms)
        dst = env.output("out", n + 1)
        return [src, n, dst]
    def spec(env, st, out):
        want = decoded(env.data["str"][:good], m, k)
        hi = len(want); lo = good // g * (g * k // 8)
        enc = exact and -(-hi * 8 // k) == good      # a length the encoder produces
        rv = st.rv
        if type(rv) is not int:
            rv2 = out.I_values(rv) if hasattr(out, "I_values") else None
            if enc: out.ret(hi)
            else: out.fail("return value", "count depends on more than the position of the first illegal character", st.trace)
            return
        if enc: out.ret(hi)
        elif rv > hi: out.fail("return value", "%d bytes are reported but only %d are determined by the %d legal characters" % (rv, hi, good), st.trace)
        elif rv < lo: out.fail("return value", "%d bytes are reported, dropping complete groups (%d bytes) before the first illegal character" % (rv, lo), st.trace)
        else: out.ok()
        r = min(rv, hi)
        out.bytes("decoded", "out", want[:r])
        out.untouched("beyond count", "out", r, n + 1)
    return Case("%s n=%d %s" % (fn, n, tag), fn, build, spec, cost=n)

def cases(thorough, mod):
    out = []
    for fn, m, k, g, pad in FMT:
        legal = set(m); bad = [c for c in range(256) if c not in legal]; full = range(256)
        noeq = [c for c in bad if c != 61]
        L = list(range(0, 3 * g + 2 if not thorough else 5 * g + 2)) + [64] + list(range(1024, 1025 + g)) + ([200, 2003] if thorough else [])
        for n in L:
            ps = range(n) if n < 40 else sorted({0, 1, n // 2, n - g, n - g + 1, n - 2, n - 1})
            out.append(dec_case(fn, m, k, g, n, n, [], "all legal", True))
            for p in ps:
                rest = [full if n < 100 else sorted(legal)] * (n - p - 1)
                if pad == "cut":
                    out.append(dec_case(fn, m, k, g, n, p, [noeq] + rest, "illegal at %d" % p, False))
                    out.append(dec_case(fn, m, k, g, n, p, [[61]] + rest, "'=' at %d" % p, True))
                elif pad == "tail":
                    if p == n - 1:
                        out.append(dec_case(fn, m, k, g, n, p, [[61]], "'=' last", True))
                        out.append(dec_case(fn, m, k, g, n, p, [noeq], "illegal last", False))
                    elif p == n - 2:
                        out.append(dec_case(fn, m, k, g, n, p, [[61], [61]], "'==' last", True))
                        out.append(dec_case(fn, m, k, g, n, p, [[61], [c for c in full if c != 61]], "'=' then other", False))
                        out.append(dec_case(fn, m, k, g, n, p, [noeq, full], "illegal at %d" % p, False))
                    else:
                        out.append(dec_case(fn, m, k, g, n, p, [bad] + rest[:-1] + [[61]], "illegal at %d, ends in '='" % p, False))
                        out.append(dec_case(fn, m, k, g, n, p, [bad] + rest[:-1] + [[c for c in full if c != 61]], "illegal at %d" % p, False))
                else: out.append(dec_case(fn, m, k, g, n, p, [bad] + rest, "illegal at %d" % p, False))
    # compositions: the decoder applied to what the encoder wrote
    RT = [("fingera_to_hex", "fingera_from_hex", lambda n: 2 * n, [0]), ("fingera_to_hex", "fingera_from_hex", lambda n: 2 * n, [1]),
          ("fingera_to_base64", "fingera_from_base64", lambda n: (n + 2) // 3 * 4, []),
          ("fingera_to_base64_urlsafe", "fingera_from_base64_urlsafe", lambda n: -(-n * 4 // 3), []),
          ("fingera_to_base32", "fingera_from_base32", lambda n: (n + 4) // 5 * 8, []),
          ("fingera_to_base32_raw", "fingera_from_base32_raw", lambda n: -(-n * 8 // 5), [])]
    for e, d, ln, ex in RT:
        for n in list(range(0, 12)) + [33]:
            def build(env, e=e, d=d, ln=ln, ex=ex, n=n):
                src = env.input("data", n); m = ln(n); mid = env.output("text", m); dst = env.output("back", n)
                return [(e, [src, n, mid] + ex), (d, [mid, m, dst])]
            def spec(env, st, o, n=n):
                o.ret(n); o.bytes("round trip", "back", env.data["data"])
            out.append(Case("%s o %s n=%d %s" % (d, e, n, ex), d, build, spec))
    return out
