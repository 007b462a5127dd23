"""C11: Base58Check accepts only data whose four checksum bytes all match."""
import terms as t
import libc
from check import Case
from interp import P
from spec import *
LEVEL = "other"
EXPLAIN = ("Base58Check encoding and decoding are interpreted over the public Base58 and hash functions as opaque operations: decoding is given every decoded length with unknown bytes, and on every path the "
           "result must be the length without the checksum exactly where all four checksum bytes equal the double hash of everything before them; encoding must hand prefix || data || checksum to the Base58 encoder")
ASSUME = ["Base58 conversion itself is decided by C09, C10 and C31, the hashes by C01 and C03", "decoded lengths and payload sizes are enumerated up to the stated bound"]

def b58(ks):
    """fingera_from_base58: any of the given decoded lengths, unknown bytes"""
    def f(I, st, av, ins):
        n = libc.conc(I, st, av, 1); out = []
        if type(av[0]) is P and n: I.check(st, av[0], n, False)
        kk = [k for k in ks if k <= n]
        for k in kk:
            s = st.clone()
            if k:
                I.check(s, av[2], k, True); I.store_cells(s, s.wobj(av[2].o), av[2].off, [t.sym("dec[%d]" % i) for i in range(k)])
            s.log.append(("from58", av[0], n, k)); out.append((s, k))
        return out
    return f
def dec(n, ks, label):
    m = dict(HASH_MODELS); m["fingera_from_base58"] = b58(ks)
    def build(env):
        return [env.input("text", n), n, env.output("buf", n)]
    def spec(env, st, o):
        e = [x for x in st.log if x[0] == "from58"]
        if len(e) != 1 or e[0][1] != P("text", 0) or e[0][2] != n:
            o.fail("decoding", "does not decode exactly the given text once (%s)" % [(x[1], x[2]) for x in e], st.trace); return
        k = e[0][3]; d = [t.sym("dec[%d]" % i) for i in range(k)]
        if k < 4: o.ret(0); return
        h = u_hash256(d[:k - 4]); ok = 1
        for i in range(4): ok = t.band(ok, t.eq(h[i], d[k - 4 + i], 8), 1)
        v = env.I.decide(st, ok) if type(ok) is t.T else ok
        if v is None: o.eq("return value", st.rv, t.ite(ok, k - 4, 0, 64), 64, st.trace)
        else: o.ret(k - 4 if v else 0)
        if v != 0:
            for i in range(k - 4): o.eq("buf[%d]" % i, st.rd("buf", i), d[i])
    return Case("from_base58_check %d characters, %s" % (n, label), "fingera_from_base58_check", build, spec, models=m, cost=len(ks), nopin=True)
def enc(n, p):
    def m58(I, st, av, ins):
        k = libc.conc(I, st, av, 1)
        if k: I.check(st, av[0], k, False)
        c = [st.rd(av[0].o, av[0].off + i) for i in range(k)]
        out = []
        for r in (k, k + 1):
            s = st.clone(); I.store_cells(s, s.wobj(av[2].o), av[2].off, [t.sym("enc[%d]" % i) for i in range(r)])
            s.log.append(("to58", tuple(c), r)); out.append((s, r))
        return out
    m = dict(HASH_MODELS); m["fingera_to_base58"] = m58
    def build(env):
        d = env.input("data", n); q = env.input("prefix", p)
        return [d, n, q, p, env.output("text", (n + p + 4) * 138 // 100 + 2)]
    def spec(env, st, o):
        e = [x for x in st.log if x[0] == "to58"]
        if len(e) != 1: o.fail("encoding", "%d encodings instead of one" % len(e), st.trace); return
        all_ = env.data["prefix"] + env.data["data"]; want = all_ + u_hash256(all_)[:4]
        got = e[0][1]; r = e[0][2]
        if len(got) != len(want): o.fail("payload", "is %d bytes instead of %d" % (len(got), len(want)), st.trace); return
        for i, (g, w) in enumerate(zip(got, want)): o.eq("payload[%d]" % i, g, w)
        o.ret(r)
        for i in range(r): o.eq("text[%d]" % i, st.rd("text", i), t.sym("enc[%d]" % i))
    return Case("to_base58_check %d bytes, %d-byte prefix" % (n, p), "fingera_to_base58_check", build, spec, models=m, cost=n / 50, nopin=True)
def cases(thorough, mod):
    out = []
    for n in range(0, 13): out.append(dec(n, list(range(0, n + 1)), "every decoded length"))
    for n in (26, 34, 51, 52, 111): out.append(dec(n, [k for k in (0, 3, 4, 5, 21, 24, 25, 37, 38, 82) if k <= n] + [n], "selected decoded lengths"))
    for n in (60, 200) if not thorough else (60, 130, 200, 400, 1000): out.append(dec(n, list(range(0, n + 1, 1 if n < 100 or thorough else 7)), "decoded lengths up to %d" % n))
    for p in (0, 1, 2, 4, 8):
        for n in list(range(0, 8)) + [20, 32, 33, 74, 115, 119, 120, 121, 122, 123, 124, 125, 150] + ([255, 256, 257, 1000] if thorough else [300]): out.append(enc(n, p))
    return out
