"""C14: WIF private keys are accepted only on their own network and layout."""
from check import Case
from strs import *
LEVEL = "proof"
EXPLAIN = ("WIF decoding is interpreted over an opaque Base58Check decoder that may deliver any payload: the payload size is enumerated, every payload byte is unknown, and on every path acceptance must "
           "coincide with 'network prefix, 32 key bytes, nothing or the byte 1', with key and flag as in the payload, and untouched on rejection; encoding must hand exactly that payload to the encoder")
ASSUME = ["Base58Check is decided by C09-C11 and C31", "prefix sizes 0 to 8"]
PRE = [b"", b"\x80", b"\xef", b"\x80\x80", b"\x01\x02\x03", b"\x04\x88\xad\xe4", b"\x80" * 5, b"\1\2\3\4\5\6\7\x80"]

def dec(mod, pre, n, ks):
    offsets(mod); p = len(pre)
    def build(env):
        c = env.input("text", n); k = env.inout("key", 32); f = env.inout("flag", 4)
        return [c, n, k, f, chain(env, secret=pre)]
    def spec(env, st, o):
        e = decoded(st, o, n, p + 32, lambda v: (o.truth(v), o.untouched("key", "key", 0, 32, env.data["key"]), o.untouched("flag", "flag", 0, 4, env.data["flag"])))
        if e is None: return
        k, d = e
        ok = 0
        if k in (p + 32, p + 33):
            ok = match(d, pre)
            if k == p + 33: ok = t.band(ok, t.eq(d[k - 1], 1, 8), 1)
        ok = settle(env, st, ok); o.truth(ok)
        old = env.data["key"]; flag = leword(env.data["flag"])
        got = [st.rd("flag", i) for i in range(4)]
        if any(type(x) is not int and type(x) is not t.T for x in got): o.fail("compression flag", "not an integer"); return
        gf = t.ne(leword(got), 0, 32)
        if type(ok) is int:
            if ok:
                o.bytes("key", "key", d[p:p + 32]); o.eq("compression flag", gf, 1 if k == p + 33 else 0, 1, st.trace)
            else: o.untouched("key", "key", 0, 32, old); o.untouched("flag", "flag", 0, 4, env.data["flag"])
        else:
            for i in range(32): o.eq("key[%d]" % i, st.rd("key", i), t.ite(ok, d[p + i], old[i], 8))
            o.eq("compression flag", gf, t.ite(ok, 1 if k == p + 33 else 0, t.ne(flag, 0, 32), 1), 1)
    return Case("key_from_string %d characters, prefix %s" % (n, pre.hex() or "none"), "fingera_btc_key_from_string", build, spec, models={"fingera_from_base58_check": from58(ks, lambda k: classes(pre, k, [(p + 33, p + 32, 1)]))}, cost=len(ks), nopin=True)
def enc(mod, pre, comp):
    offsets(mod); p = len(pre)
    def build(env):
        k = env.input("key", 32); f = env.num("comp", 32, *comp) if type(comp) is tuple else comp
        return [k, env.output("text", (p + (33 if comp else 32) + 4) * 138 // 100 + 2), f, chain(env, secret=pre)]
    def spec(env, st, o):
        e = calls(st, "to58")
        if len(e) != 1: o.fail("encoding", "%d encodings instead of one" % len(e), st.trace); return
        want = list(pre) + env.data["key"] + ([1] if comp else [])
        got = e[0][1]; r = e[0][2]
        if len(got) != len(want): o.fail("payload", "is %d bytes instead of %d" % (len(got), len(want)), st.trace); return
        for i, (g, w) in enumerate(zip(got, want)): o.eq("payload[%d]" % i, g, w)
        o.ret(r)
        for i in range(r): o.eq("text[%d]" % i, st.rd("text", i), t.sym("enc[%d]" % i))
    return Case("key_to_string compressed=%s prefix %s" % (comp, pre.hex() or "none"), "fingera_btc_key_to_string", build, spec, models={"fingera_to_base58_check": to58()}, nopin=True)
def cases(thorough, mod):
    out = []
    for pre in PRE:
        p = len(pre)
        top = p + 60 if thorough else p + 40
        for n in (0, 1, 10, 44, 51, 52, 60, 127, 128, 129, 200): out.append(dec(mod, pre, n, sorted({0} | ({1, p, p + 1, p + 31, p + 32, p + 33, p + 34, p + 65} if n != 60 and n != 129 else set(range(1, top))))))
        for c in (0, 1, (2, (1 << 31) - 1), (1 << 31, (1 << 32) - 1)): out.append(enc(mod, pre, c))
    return out
