"""C36: public keys are computed, encoded and decoded exactly as the curve library does."""
from check import Case
from btc import *
LEVEL = "proof"
EXPLAIN = ("public-key computation, encoding and decoding are interpreted with every byte unknown and the curve operations uninterpreted: the output must be the library's result for exactly the given bytes "
           "in the form the announced size asks for, the status the library's verdict, and any other announced size must be refused without touching the output")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)"]
E = ("ret", "assert")
def get_pub():
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        if env.I.decide(st, t.uf("ok:seckey_verify", (tuple(env.data["key"]),), 1, taint=0)) != 1: o.fail("public key", "returned for a key the curve library was not asked about or refused", st.trace); return
        o.bytes("public key", "pub", pub(env.data["key"])); o.untouched("beyond", "pub", 64, 68)
    return Case("key_get_pub", "fingera_btc_key_get_pub", lambda env: [env.input("key", 32), env.output("pub", 68)], spec, pre=ready, models=OPAQUE, ends=E)
def encode(n):
    def spec(env, st, o):
        if st.end != "ret":
            if n in (33, 65): return excused(st, o)
            o.ok(); return
        if n not in (33, 65): o.truth(0); o.untouched("encoding", "enc", 0, min(n, 100)); return
        o.truth(1); o.bytes("encoding", "enc", ser(env.data["pub"], n))
    return Case("pubkey_encode %d" % n, "fingera_btc_pubkey_encode", lambda env: [env.input("pub", 64), env.output("enc", min(n, 100)), n], spec, pre=ready, models=OPAQUE, ends=E, must_return=n in (33, 65))
def decode(n):
    def spec(env, st, o):
        if st.end != "ret":
            if n in (33, 65): return excused(st, o)
            o.ok(); return
        if n not in (33, 65): o.truth(0); return
        d = tuple(env.data["enc"]); ok = env.I.decide(st, t.uf("ok:pubkey_parse", (d,), 1, taint=0))
        if ok is None: o.fail("status", "does not depend on the curve library's verdict on the given bytes", st.trace); return
        o.truth(ok)
        if ok: o.bytes("public key", "pub", ufbytes("pubkey_parse", (d,), 64))
    return Case("pubkey_decode %d" % n, "fingera_btc_pubkey_decode", lambda env: [env.input("enc", min(n, 100)), n, env.output("pub", 64)], spec, pre=ready, models=OPAQUE, ends=E, must_return=n in (33, 65))
def cases(thorough, mod):
    return [get_pub()] + [f(n) for f in (encode, decode) for n in (33, 65, 0, 1, 32, 34, 64, 66, 33 + 256, 65 + 256, 33 + (1 << 32), 65 + (1 << 32))]
