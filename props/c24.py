"""C24: a failed curve-library operation is never reported as success."""
from check import Case
from btc import *
from c04 import const_of
LEVEL = "proof"
EXPLAIN = ("every public key function is interpreted with each curve operation taking both verdicts; on every path the reported status must be success exactly when no "
           "operation failed, and a function without a status must not return after a failure")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)"]

def status(name, fn, build, all_ok=True):
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        if failed(st): o.truth(0, label="status after a failed %s" % failed(st)[0][0])
        elif all_ok: o.truth(1, label="status when every operation succeeded")
        else: o.ok()
    return Case(name, fn, build, spec, pre=ready, models=OPAQUE, ends=("ret", "assert", "exit", "abort"))
def void(name, fn, build, pre=ready, models=None):
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        if failed(st): o.fail("termination", "returns as if it had succeeded after a failed %s" % failed(st)[0][0], st.trace)
        else: o.ok()
    m = dict(OPAQUE); m.update(models or {})
    return Case(name, fn, build, spec, pre=pre, models=m, ends=("ret", "assert", "exit", "abort"))

DER = {214: (bytes.fromhex("3081d30201010420"), None), 279: (bytes.fromhex("308201130201010420"), None)}
def cases(thorough, mod):
    ks = const_of(mod, "z_exkey"); ps = const_of(mod, "z_expub"); dk = const_of(mod, "o_ext_depth"); dp = const_of(mod, "o_expub_depth")
    out = []
    def dep(n, at): d = [None] * n; d[at] = range(255); return d
    for lo, hi in ((0, (1 << 31) - 1), (1 << 31, (1 << 32) - 1)):
        out.append(status("key_derive [%#x..]" % lo, "fingera_btc_key_derive", lambda env, lo=lo, hi=hi: [env.input("key", 32), env.input("chain", 32), env.output("ok", 32), env.output("oc", 32), env.num("child", 32, lo, hi)]))
        out.append(status("exkey_derive [%#x..]" % lo, "fingera_exkey_derive", lambda env, lo=lo, hi=hi: [env.input("xkey", ks, doms=dep(ks, dk)), env.output("der", ks), env.num("child", 32, lo, hi), env.num("fp", 32)]))
    out.append(status("pubkey_derive", "fingera_btc_pubkey_derive", lambda env: [env.input("key", 33), env.input("chain", 32), env.output("ok", 33), env.output("oc", 32), env.num("child", 32, 0, (1 << 31) - 1)]))
    out.append(status("expubkey_derive", "fingera_expubkey_derive", lambda env: [env.input("xkey", ps, doms=dep(ps, dp)), env.output("der", ps), env.num("child", 32, 0, (1 << 31) - 1), env.num("fp", 32)]))
    for n in (214, 279):
        out.append(status("key_encode %d" % n, "fingera_btc_key_encode", lambda env, n=n: [env.input("key", 32), env.output("der", n), n]))
        def kd(env, n=n):
            h = DER[n][0]
            return [env.input("der", n, vals=list(h) + [None] * (n - len(h))), n, env.output("key", 32)]
        out.append(status("key_decode %d" % n, "fingera_btc_key_decode", kd))
    for n in (33, 65):
        out.append(status("pubkey_encode %d" % n, "fingera_btc_pubkey_encode", lambda env, n=n: [env.input("pub", 64), env.output("enc", n), n]))
        out.append(status("pubkey_decode %d" % n, "fingera_btc_pubkey_decode", lambda env, n=n: [env.input("enc", n), n, env.output("pub", 64)]))
    out.append(status("signature_encode", "fingera_btc_signature_encode", lambda env: [env.input("sig", 64), env.output("der", 72)]))
    out.append(status("key_verify", "fingera_btc_key_verify", lambda env: [env.input("pub", 64), env.input("hash", 32), env.input("sig", 64)]))
    out.append(void("key_get_pub", "fingera_btc_key_get_pub", lambda env: [env.input("key", 32), env.output("pub", 64)]))
    for c in (0, 1):
        out.append(void("key_keyid %d" % c, "fingera_btc_key_keyid", lambda env, c=c: [env.input("key", 32), c, env.output("id", 20)]))
        out.append(void("key_fingerprint %d" % c, "fingera_btc_key_fingerprint", lambda env, c=c: [env.input("key", 32), c]))
        out.append(void("pubkey_keyid %d" % c, "fingera_btc_pubkey_keyid", lambda env, c=c: [env.input("pub", 64), c, env.output("id", 20)]))
    out.append(void("exkey_get_pub", "fingera_exkey_get_pub", lambda env: [env.input("xkey", ks), env.output("xpub", ps)]))
    import c25
    out.append(void("key_sign", "fingera_btc_key_sign", lambda env: [env.input("key", 32), env.input("hash", 32), env.output("sig", 64)], models=c25.limited("secp256k1_ecdsa_sign", 4)))
    out.append(void("key_init", "fingera_btc_key_init", lambda env: [], pre=None))
    return out
