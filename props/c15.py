"""C15: xprv/xpub strings are accepted only on their own network and layout."""
from check import Case
from strs import *
LEVEL = "proof"
EXPLAIN = ("extended-key strings are decoded over an opaque Base58Check decoder that may deliver any payload: the payload size is enumerated, every payload byte is unknown, and on every path acceptance must "
           "coincide with 'network prefix for that key type, 74-byte record (byte 41 zero before a private key)', with every field as in the record and the key untouched on rejection; encoding must hand "
           "prefix and record to the encoder.  Structure offsets come from the compiler, record offsets from BIP32")
ASSUME = ["Base58Check is decided by C09-C11 and C31", "prefix sizes 0 to 8"]
PRE = [b"", b"\x04", bytes.fromhex("0488b21e"), bytes.fromhex("0488ade4"), bytes.fromhex("043587cf"), b"\1\2\3\4\5\6\7\x80"]

def dec(mod, kind, fn, field, pre, n, ks):
    offsets(mod); p = len(pre); m, size = layout(mod, kind)
    def build(env):
        c = env.input("text", n); k = env.inout("key", size)
        return [c, n, k, chain(env, **{field: pre})]
    def spec(env, st, o):
        e = decoded(st, o, n, p + 74, lambda v: (o.truth(v), o.untouched("key", "key", 0, size, env.data["key"])))
        if e is None: return
        k, d = e; ok = 0
        if k == p + 74:
            ok = match(d, pre)
            if kind == "exkey": ok = t.band(ok, t.eq(d[p + 41], 0, 8), 1)
        ok = settle(env, st, ok); o.truth(ok); old = env.data["key"]
        if type(ok) is int and not ok: o.untouched("key", "key", 0, size, old); return
        for r, s in m:
            o.eq("field byte %d" % s, st.rd("key", s), d[p + r] if ok == 1 else t.ite(ok, d[p + r], old[s], 8))
    return Case("%s %d characters, prefix %s" % (fn, n, pre.hex() or "none"), fn, build, spec, models={"fingera_from_base58_check": from58(ks, lambda k: classes(pre, k, [(p + 74, p + 41, 0)] if kind == 'exkey' else []))}, cost=len(ks), nopin=True)
def enc(mod, kind, fn, field, pre):
    offsets(mod); p = len(pre); m, size = layout(mod, kind)
    def build(env):
        k = env.input("key", size)
        return [k, env.output("text", (p + 74 + 4) * 138 // 100 + 2), chain(env, **{field: pre})]
    def spec(env, st, o):
        e = calls(st, "to58")
        if len(e) != 1: o.fail("encoding", "%d encodings instead of one" % len(e), st.trace); return
        want = [0] * 74
        for r, s in m: want[r] = env.data["key"][s]
        want = list(pre) + want; got = e[0][1]; r = e[0][2]
        if len(got) != len(want): o.fail("payload", "is %d bytes instead of %d" % (len(got), len(want)), st.trace); return
        for i, (g, w) in enumerate(zip(got, want)): o.eq("payload[%d]" % i, g, w)
        o.ret(r)
        for i in range(r): o.eq("text[%d]" % i, st.rd("text", i), t.sym("enc[%d]" % i))
    return Case("%s prefix %s" % (fn, pre.hex() or "none"), fn, build, spec, models={"fingera_to_base58_check": to58()}, nopin=True)
def cases(thorough, mod):
    out = []
    for kind, f, field in (("exkey", "exkey", "xprv"), ("expub", "expubkey", "xpub")):
        for pre in PRE:
            p = len(pre)
            for n in (0, 1, 10, 82, 90, 111, 112, 127, 128, 129, 130, 200, 300): out.append(dec(mod, kind, "fingera_%s_from_string" % f, field, pre, n, sorted({0} | ({1, p, p + 1, p + 73, p + 74, p + 75, p + 148} if n != 112 and n != 130 else set(range(1, p + (90 if not thorough else 140)))))))
            out.append(enc(mod, kind, "fingera_%s_to_string" % f, field, pre))
    return out
