"""C35: a DER signature decodes to the r and s it encodes, and is encoded by the curve library alone."""
from check import Case
from btc import *
import der
LEVEL = "other"
EXPLAIN = ("the signature decoder is interpreted over families of DER and lax-DER strings (all length forms, leading zeros, trailing bytes, truncation at every byte, wrong tags, lengths beyond the rest, "
           "lengths that wrap) whose number bytes are unknown; a reference parser gives r and s, and the output must be what the curve library makes of the two 32-byte numbers, the invalid all-zero signature "
           "where a number does not fit, and a reported failure for anything else.  Encoding must be the curve library's, within 72 bytes")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)"]
def dec(label, cells):
    n = len(cells); ref = der.lax(cells)
    def build(env):
        return [env.input("der", n, vals=[c if type(c) is int else None for c in cells], doms=[None if type(c) is int else c for c in cells]), n, env.output("sig", 64)]
    def spec(env, st, o):
        if ref[0] == "bad": o.truth(0); return
        (ra, rk), (sa, sk) = ref[1:]; d = env.data["der"]
        if rk > 32 or sk > 32: want = [0] * 64
        else:
            b = [0] * (32 - rk) + d[ra:ra + rk] + [0] * (32 - sk) + d[sa:sa + sk]
            fit = 1 if all(type(x) is int and x == 0 for x in b) else env.I.decide(st, t.uf("ok:parse_compact", (tuple(b),), 1, taint=0))
            if fit is None:
                o.fail("decoding", "the numbers of the encoding never reach the curve library", st.trace); return
            want = ufbytes("sig", (tuple(b),), 64) if fit and any(type(x) is not int or x for x in b) else [0] * 64
        if want == [0] * 64 and env.I.decide(st, t.ne(st.rv, 0, 32) if type(st.rv) in (int, t.T) else 1) == 0: o.ok(); return     # refusing is fine too
        o.truth(1)
        for i, w in enumerate(want): o.eq("signature[%d]" % i, st.rd("sig", i), w)
    return Case("decode " + label, "fingera_btc_signature_decode", build, spec, pre=ready, models=OPAQUE, cost=n, opts=dict(merge=False, max_states=1 << 18))
def enc(mod):
    def build(env): return [env.input("sig", 64), env.output("der", 72)]
    def spec(env, st, o):
        e = [x for x in ops(st) if x[0] == "serialize_der"]
        if len(e) != 1: o.fail("encoding", "%d serialisations instead of one" % len(e), st.trace); return
        if e[0][1][2] < 72: o.fail("encoding", "offers the curve library %d bytes, a signature may need 72" % e[0][1][2], st.trace); return
        if not e[0][2]: o.ret(0); return
        if type(st.rv) is not int or not 8 <= st.rv <= 72: o.fail("length", "returns %s" % (st.rv,), st.trace); return
        o.n += 1
        if env.I.decide(st, t.eq(t.uf("der_len", (tuple(env.data["sig"]),), 8, lo=8, hi=72), st.rv, 8)) != 1: o.fail("length", "is %d, not the curve library's" % st.rv, st.trace); return
        for i, w in enumerate(ufbytes("sig_der", (tuple(env.data["sig"]),), st.rv)): o.eq("der[%d]" % i, st.rd("der", i), w)
        o.untouched("beyond the encoding", "der", st.rv, 72)
    return Case("encode", "fingera_btc_signature_encode", build, spec, pre=ready, models=OPAQUE, opts=dict(merge=False))
def cases(thorough, mod):
    out = [enc(mod)]
    for l, c in der.families(thorough):
        if der.lax(c) is None: raise RuntimeError("ambiguous family " + l)
        out.append(dec(l, c))
    return out
