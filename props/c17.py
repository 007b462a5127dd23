"""C17: DER parsing is memory-safe for every byte string."""
from check import Case
from btc import *
import der
LEVEL = "other"
EXPLAIN = ("both DER parsers are interpreted over byte strings that are exact-size objects: every byte unknown for the short lengths, and families of longer strings (long-form and over-long lengths, leading "
           "zeros, truncation at every byte, lengths beyond the rest) with all non-structural bytes unknown; every read and write carries a bounds and liveness obligation, only the announced output may be "
           "written, and it must be fully initialised wherever the call reports success")
ASSUME = ["curve operations take both verdicts"]
def safe(label, fn, cells, outlen, **kw):
    n = len(cells)
    def build(env):
        v = [c if type(c) is int else None for c in cells]
        return [env.input("der", n, vals=v, doms=[None if type(c) is int else c for c in cells]), n, env.output("out", outlen)]
    def spec(env, st, o):
        o.ok(); rv = st.rv
        if type(rv) not in (int, t.T): o.fail("status", "undefined", st.trace); return
        if env.I.decide(st, t.ne(rv, 0, 32)) == 0: return
        for i in range(outlen):
            c = st.rd("out", i); o.n += 1
            if type(c) not in (int, t.T): o.fail("out[%d]" % i, "is not initialised although the call reports success", st.trace); return
    return Case(label, fn, build, spec, pre=ready, models=OPAQUE, cost=kw.pop("cost", n), opts=dict(merge=False, max_states=1 << 18), **kw)
def cases(thorough, mod):
    out = []
    for n in range(0, 14 if not thorough else 16): out.append(safe("signature of %d free bytes" % n, "fingera_btc_signature_decode", [None] * n, 64, cost=1 << n))
    # deeper than free strings reach: structure fixed up to one integer, free from there
    for n in (14, 20, 30) if not thorough else (14, 20, 30, 60):
        out.append(safe("short sequence, r of 1, then free, %d bytes" % n, "fingera_btc_signature_decode", [0x30, range(128), 2, 1, None, 2] + [None] * (n - 6), 64, cost=n * 100))
        out.append(safe("short sequence, any short r, %d bytes" % n, "fingera_btc_signature_decode", [0x30, range(128), 2, range(128)] + [der.NZ] * (n - 4), 64, cost=n * 100))
    for l, c in der.families(thorough): out.append(safe("signature: " + l, "fingera_btc_signature_decode", c, 64))
    key = lambda l, c, **kw: out.append(safe("key: " + l, "fingera_btc_key_decode", c, 32, **kw))
    for n in list(range(0, 70)) + [100, 127, 128, 130, 213, 214, 215, 279, 300]: key("%d free bytes" % n, [None] * n)
    for h in ([0x30, 0x81, None], [0x30, 0x82, None, None], [0x30, 0x81, 0x10], [0x30, 0x82, 0, 0x40], [0x30, 0x82, 1, 0x13]):
        for n in list(range(len(h), 50)) + [64, 70, 300]:
            key("header %s, %d bytes" % (len(h), n), h + ([2, 1, 1, 4] + [None] * n)[:n - len(h)])
            for k in (0, 1, 31, 32, 33, 64, 127, 128, 255): key("header %s, string of %d, %d bytes" % (h, k, n), h + ([2, 1, 1, 4, k] + [None] * n)[:n - len(h)])
    return out
