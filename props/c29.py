"""C29: key ids and fingerprints are the hash160 of the serialised public key."""
from check import Case
from btc import *
LEVEL = "proof"
EXPLAIN = ("the key-id and fingerprint functions are interpreted with every key byte an unknown, the curve library as uninterpreted functions and the hashes opaque; the "
           "result must be the term hash160(serialise_n(public key)) with n chosen by the flag")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)", "the digests are C01's and hash160 is decomposed as in C03"]

def flag(env, v): return env.num("compress", 32, *v) if type(v) is tuple else v
def spec_of(env, want, kind):
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        w = want(env)
        if kind == "id":
            o.bytes("key id", "id", w); o.untouched("beyond the id", "id", 20, 24)
        else: o.ret(leword(w[:4]), 32, label="fingerprint")
    return spec
def cases(thorough, mod):
    out = []
    for v, n in ((0, 65), (1, 33), ((2, (1 << 31) - 1), 33), ((1 << 31, (1 << 32) - 1), 33)):
        want = lambda env, n=n: u_hash160(ser(pub(env.data["key"]), n))
        out.append(Case("key_keyid compress=%s" % (v,), "fingera_btc_key_keyid", lambda env, v=v: [env.input("key", 32), flag(env, v), env.output("id", 24)],
                        spec_of(None, want, "id"), pre=ready, models=OPAQUE, ends=("ret", "assert")))
        out.append(Case("key_fingerprint compress=%s" % (v,), "fingera_btc_key_fingerprint", lambda env, v=v: [env.input("key", 32), flag(env, v)],
                        spec_of(None, want, "fp"), pre=ready, models=OPAQUE, ends=("ret", "assert")))
        wantp = lambda env, n=n: u_hash160(ser(env.data["pub"], n))
        out.append(Case("pubkey_keyid compress=%s" % (v,), "fingera_btc_pubkey_keyid", lambda env, v=v: [env.input("pub", 64), flag(env, v), env.output("id", 24)],
                        spec_of(None, wantp, "id"), pre=ready, models=OPAQUE, ends=("ret", "assert")))
    out.append(Case("pubkey_fingerprint", "fingera_btc_pubkey_fingerprint", lambda env: [env.input("enc", 33)],
                    spec_of(None, lambda env: u_hash160(env.data["enc"]), "fp"), pre=ready, models=OPAQUE))
    return out
