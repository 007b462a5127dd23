"""C25: key generation, signing and verification use the curve library soundly."""
from check import Case
from btc import *
import terms as t
LEVEL = "other"
EXPLAIN = ("key generation, signing and verification are interpreted with unknown keys, hashes and signatures over uninterpreted curve operations; the returned key must be "
           "32 generator bytes the library validated, the returned signature the first of the RFC 6979 sequence (no entropy, then counter 1, 2, ...) whose R is low, the "
           "verification verdict the library's on the low-S form of the given signature")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)", "retry loops are followed for the stated number of rounds"]
ROUNDS = 300

def limited(name, n):
    """the operation's model; paths with more than n calls are not followed further"""
    m = secp.MODELS[name]
    def f(I, st, av, ins):
        k = st.tags.get("n:" + name, 0)
        if k >= n: st.end = "cut"; st.rv = "rounds"; return [(st, 0)]
        st.tags["n:" + name] = k + 1
        return m(I, st, av, ins)
    return {name: f}
def M_(name, n): m = dict(OPAQUE); m.update(limited(name, n)); return m

def israndom(bs):
    """32 distinct generator bytes"""
    return all(type(b) is t.T and b.op == "sym" and str(b.a[0]).startswith("rand[") for b in bs) and len(set(bs)) == len(bs)
def key_new(rounds):
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        k = [st.rd("key", i) for i in range(32)]
        if None in k: o.fail("key", "not fully written", st.trace); return
        if not israndom(k): o.fail("key", "is not made of 32 distinct bytes of the system generator", st.trace); return
        o.ok(32)
        v = [x for x in ops(st) if x[0] == "seckey_verify" and tuple(x[1][-1]) == tuple(k)]
        if not v or v[-1][2] != 1: o.fail("key", "returned without having been validated by the curve library", st.trace)
        else: o.ok()
    return Case("key_new, up to %d rejected candidates" % (rounds - 1), "fingera_btc_key_new", lambda env: [env.output("key", 32)], spec, pre=ready, models=M_("secp256k1_ec_seckey_verify", rounds), ends=("ret", "assert"))

def sign(rounds):
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        key = tuple(env.data["key"]); h = tuple(env.data["hash"]); I = env.I
        sg = [x for x in ops(st) if x[0] == "ecdsa_sign"]
        if not sg: o.fail("signature", "no signature was made", st.trace); return
        k = len(sg) - 1
        ent = tuple(lebytes(k, 4) + [0] * 28) if k else ()
        for i, (n, a, v) in enumerate(sg):
            w = tuple(lebytes(i, 4) + [0] * 28) if i else ()
            if a[1] != h: o.fail("signing call %d" % i, "signs other bytes than the given hash", st.trace); return
            if a[2] != key: o.fail("signing call %d" % i, "uses another key than the given one", st.trace); return
            if a[3] != "rfc6979": o.fail("signing call %d" % i, "nonce function %s is not RFC 6979" % a[3], st.trace); return
            if a[4] != w: o.fail("signing call %d" % i, "extra entropy is not %s" % ("the counter %d" % i if i else "absent"), st.trace); return
            if v != 1: o.fail("signing call %d" % i, "failed, yet the function returns", st.trace); return
            r0 = t.uf("sig_compact", (tuple(ufbytes("ecdsa_sig", (h, key, w, "rfc6979"), 64)),), 8, 0)
            low = I.decide(st, t.ult(r0, 0x80, 8))
            if i < k and low != 0: o.fail("signing call %d" % i, "re-signed although its R value was not known to be high", st.trace); return
            if i == k and low != 1: o.fail("signature", "returned although its R value was not checked to be below 2^255", st.trace); return
            o.ok(6)
        o.bytes("signature", "sig", ufbytes("ecdsa_sig", (h, key, ent, "rfc6979"), 64))
    return Case("key_sign, up to %d rounds" % rounds, "fingera_btc_key_sign", lambda env: [env.input("key", 32), env.input("hash", 32), env.output("sig", 64)], spec,
                pre=ready, models=M_("secp256k1_ecdsa_sign", rounds), ends=("ret", "assert"), nopin=True, noseq=rounds > 9)
def verify():
    def spec(env, st, o):
        if st.end != "ret": o.fail("termination", "ends with %s" % st.end); return
        pb, h, sg = (tuple(env.data[k]) for k in ("pub", "hash", "sig"))
        low = tuple(ufbytes("sig_lowS", (sg,), 64))
        v = [x for x in ops(st) if x[0] == "ecdsa_verify"]
        if not v: o.fail("verdict", "the curve library was not asked", st.trace); return
        k, s_, h_, p_ = v[-1][1]
        if h_ != h: o.fail("verdict", "on other bytes than the given hash", st.trace)
        elif p_ != pb: o.fail("verdict", "under another key than the given one", st.trace)
        elif s_ != low: o.fail("verdict", "on a signature that is not the low-S form of the given one", st.trace)
        else: o.truth(v[-1][2])
    return Case("key_verify", "fingera_btc_key_verify", lambda env: [env.input("pub", 64), env.input("hash", 32), env.input("sig", 64)], spec, pre=ready, models=OPAQUE)
def cases(thorough, mod):
    return [key_new(3), key_new(20), sign(3), sign(ROUNDS), verify()]
