"""C23: BIP32 child derivation follows the specification on every path."""
from check import Case
from btc import *
from c04 import const_of
import terms as t
from terms import M
LEVEL = "proof"
EXPLAIN = ("master generation and private / public child derivation are interpreted over unknown keys, chain codes, indices, depths and fingerprints, the curve library as "
           "uninterpreted functions with both verdicts and HMAC-SHA512 opaque; every field of the result must be the BIP32 term, every failed curve verdict must be reported")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)", "HMAC-SHA512 is C02's", "seed lengths are enumerated"]

class L(object):
    def __init__(s, mod):
        c = lambda n: const_of(mod, n)
        s.k = {f: c("o_ext_" + f) for f in ("depth", "fingerprint", "child", "chain_code")}; s.k["key"] = c("o_exkey_key"); s.ks = c("z_exkey")
        s.p = {f: c("o_expub_" + f) for f in ("depth", "fingerprint", "child", "chain_code")}; s.p["key"] = c("o_expub_pubkey"); s.ps = c("z_expub")
def bip32(chain, head, child): return u_hmac512(chain, list(head) + bebytes(child, 4))
NORM = [(0, M[31]), (0, 0), (1, 1), (M[31], M[31])]
HARD = [(1 << 31, M[32]), (1 << 31, 1 << 31), (M[32], M[32])]

def init_case(lay, n):
    def build(env): return [env.output("key", lay.ks), env.input("seed", n), n]
    def spec(env, st, o):
        h = u_hmac512(list(b"Bitcoin seed"), env.data["seed"])
        o.bytes("master key", "key", h[:32], lay.k["key"]); o.bytes("master chain code", "key", h[32:], lay.k["chain_code"])
        o.bytes("depth", "key", [0], lay.k["depth"]); o.bytes("fingerprint", "key", [0] * 4, lay.k["fingerprint"]); o.bytes("child", "key", [0] * 4, lay.k["child"])
    return Case("exkey_init seed=%d" % n, "fingera_exkey_init", build, spec, models=OPAQUE)

def tail(env, o, p, f, x, chain, child, depth, fp):
    o.bytes("chain code", p, chain, f["chain_code"])
    o.bytes("depth", p, [t.add(depth, 1, 8)], f["depth"])
    o.bytes("child", p, lebytes(child, 4), f["child"]); o.bytes("fingerprint", p, lebytes(fp, 4), f["fingerprint"])

def private(lay, rng, direct, depth=range(255), over=False):
    """over: the child is written over its parent"""
    hard = rng[0] >> 31; F = lay.k; O = ("key", "chain", "xkey") if over else ("okey", "ochain", "der")
    def build(env):
        env.child = env.num("child", 32, *rng); env.fp = env.num("fp", 32)
        if direct and over: k = env.input("key", 32, ro=False); c = env.input("chain", 32, ro=False); return [k, c, k, c, env.child]
        if direct: return [env.input("key", 32), env.input("chain", 32), env.output("okey", 32), env.output("ochain", 32), env.child]
        d = [None] * lay.ks; d[F["depth"]] = depth
        if over: k = env.input("xkey", lay.ks, doms=d, ro=False); return [k, k, env.child, env.fp]
        return [env.input("xkey", lay.ks, doms=d), env.output("der", lay.ks), env.child, env.fp]
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        x = env.data.get("xkey")
        key, chain = (env.data["key"], env.data["chain"]) if direct else (x[F["key"]:F["key"] + 32], x[F["chain_code"]:F["chain_code"] + 32])
        if failed(st): o.truth(0); return
        h = bip32(chain, [0] + key if hard else ser(pub(key), 33), env.child)
        want = ufbytes("tweaked", (tuple(key), tuple(h[:32])), 32)
        need = {"seckey_tweak_add"} | (set() if hard else {"seckey_verify"})
        got = {n for n, a, v in ops(st) if v == 1}
        if not need <= got: o.fail("status", "the curve library was not asked to %s" % ", ".join(sorted(need - got)), st.trace); return
        o.truth(1)
        if direct: o.bytes("child key", O[0], want); o.bytes("child chain code", O[1], h[32:])
        else:
            o.bytes("child key", O[2], want, F["key"]); tail(env, o, O[2], F, x, h[32:], env.child, x[F["depth"]], env.fp)
    nm = "fingera_btc_key_derive" if direct else "fingera_exkey_derive"
    return Case("%s%s child=[%#x,%#x] depth<=%d" % (nm[8:], " over the parent" if over else "", rng[0], rng[1], max(depth)), nm, build, spec, pre=ready, models=OPAQUE, ends=("ret", "assert"))

def public(lay, rng, direct, depth=range(255), over=False):
    hard = rng[0] >> 31; F = lay.p; O = ("key", "chain", "xkey") if over else ("okey", "ochain", "der")
    def build(env):
        env.child = env.num("child", 32, *rng); env.fp = env.num("fp", 32)
        if direct and over: k = env.input("key", 33, ro=False); c = env.input("chain", 32, ro=False); return [k, c, k, c, env.child]
        if direct: return [env.input("key", 33), env.input("chain", 32), env.output("okey", 33), env.output("ochain", 32), env.child]
        d = [None] * lay.ps; d[F["depth"]] = depth
        if over: k = env.input("xkey", lay.ps, doms=d, ro=False); return [k, k, env.child, env.fp]
        return [env.input("xkey", lay.ps, doms=d), env.output("der", lay.ps), env.child, env.fp]
    def spec(env, st, o):
        if hard:
            # refused: failure is reported or the process ends; no key is derived
            if st.end == "ret": o.truth(0)
            else: o.ok()
            return
        if st.end != "ret": return excused(st, o)
        if failed(st): o.truth(0); return
        x = env.data.get("xkey")
        key, chain = (env.data["key"], env.data["chain"]) if direct else (x[F["key"]:F["key"] + 33], x[F["chain_code"]:F["chain_code"] + 32])
        got = {n for n, a, v in ops(st) if v == 1}
        if not {"pubkey_parse", "pubkey_tweak_add"} <= got: o.fail("status", "the curve library was not asked to parse and tweak", st.trace); return
        h = bip32(chain, key, env.child)
        want = ser(ufbytes("ptweaked", (tuple(ufbytes("pubkey_parse", (tuple(key),), 64)), tuple(h[:32])), 64), 33)
        o.truth(1)
        if direct: o.bytes("child key", O[0], want); o.bytes("child chain code", O[1], h[32:])
        else:
            o.bytes("child key", O[2], want, F["key"]); tail(env, o, O[2], F, x, h[32:], env.child, x[F["depth"]], env.fp)
    nm = "fingera_btc_pubkey_derive" if direct else "fingera_expubkey_derive"
    return Case("%s%s child=[%#x,%#x] depth<=%d" % (nm[8:], " over the parent" if over else "", rng[0], rng[1], max(depth)), nm, build, spec, pre=ready, models=OPAQUE, ends=("ret", "assert"), must_return=not hard)

def deepest(lay, kind, rng):
    F, size, nm = (lay.k, lay.ks, "fingera_exkey_derive") if kind == "k" else (lay.p, lay.ps, "fingera_expubkey_derive")
    def build(env):
        d = [None] * size; d[F["depth"]] = [255]
        env.child = env.num("child", 32, *rng)
        return [env.input("xkey", size, doms=d), env.output("der", size), env.child, env.num("fp", 32)]
    def spec(env, st, o):
        if st.end == "ret": o.truth(0)
        else: excused(st, o)
    return Case("%s at depth 255 child=[%#x,%#x]" % (nm[8:], rng[0], rng[1]), nm, build, spec, pre=ready, models=OPAQUE, ends=("ret", "assert"), must_return=False)

def neuter(lay):
    def build(env): return [env.input("xkey", lay.ks), env.output("xpub", lay.ps)]
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        if failed(st): o.fail("status", "returns although a curve operation failed", st.trace); return
        x = env.data["xkey"]
        for f, n in (("depth", 1), ("fingerprint", 4), ("child", 4), ("chain_code", 32)):
            o.bytes(f, "xpub", x[lay.k[f]:lay.k[f] + n], lay.p[f])
        k = lay.k["key"]; o.bytes("public key", "xpub", ser(pub(x[k:k + 32]), 33), lay.p["key"])
    return Case("exkey_get_pub", "fingera_exkey_get_pub", build, spec, pre=ready, models=OPAQUE, ends=("ret", "assert"))

def cases(thorough, mod):
    lay = L(mod); out = [neuter(lay)]
    for n in list(range(0, 70)) + [111, 112, 127, 128, 129, 255, 256, 257, 1000] + ([65535, 65536, 65537] if thorough else []): out.append(init_case(lay, n))
    for r in NORM + HARD:
        for direct in (False, True):
            for over in (False, True): out += [private(lay, r, direct, over=over), public(lay, r, direct, over=over)]
        out += [deepest(lay, "k", r), deepest(lay, "p", r)]
    for d in (0, 127, 128, 254):
        for r in (NORM[0], HARD[0]): out.append(private(lay, r, False, [d]))
        out.append(public(lay, NORM[0], False, [d]))
    return out
