"""C19: secrets are wiped from the library's own memory on every return."""
import terms as t
import libc
from terms import T
from interp import P
from check import Case
from btc import *
from strs import chain, offsets
from c04 import const_of
LEVEL = "proof"
EXPLAIN = ("information-flow analysis on the intermediate representation: key, seed, HMAC-key, message and generator bytes carry a secret label through every load, store, copy and operation; "
           "whenever a stack array or heap block of the library dies, no byte that ever held labelled data may remain without a wipe the optimiser must keep (an overwrite followed by a barrier "
           "that is given the object's address, volatile stores, explicit_bzero).  Every returning path of every case is followed, failures included")
ASSUME = ["labels end at public results: public keys, signatures, checksums (hash256) and key hashes (hash160)", "variables the compiler may keep in registers are not buffers: scalars of at most 8 bytes, and word "
          "arrays local to the compression functions", "a wipe is kept by the compiler when C20's primitive is (C20 decides it)"]

def watch(mod):
    skip = set()
    for n, f in mod.funcs.items():
        if f.linkage != 8 or not (f.file or "").endswith(("sha1.c", "sha2.c", "ripemd160.c")): continue
        for b in f.blocks:
            for i in b.ins:
                if i.op == "alloca" and i.w2 in (32, 64): skip.add("%s.%s" % (n, i.x[1] or "tmp"))
    def hook(I, st, o):
        if o.kind == "heap" or (o.kind == "stack" and o.size > 8 and o.name not in skip):
            I.stats["released"] = I.stats.get("released", 0) + 1
            if o.dirty:
                k = sorted(o.dirty); l = o.dirty[k[0]]
                I.event(st, "secret left behind", "%d bytes of %s (%d..%d) still hold secret data written in %s (%s:%s) when it is released" % (len(k), o.name, k[0], k[-1], l[0], l[1], l[2]))
        elif o.kind == "stack": return
    return hook

def spec(env, st, o):
    o.ok(max(1, env.I.stats.get("released", 0) // max(1, env.I.stats.get("paths", 1))))
    for oid, x in st.mem.items():
        if x.kind == "heap" and x.alive and x.dirty: o.fail("scratch memory", "%s holds secret data and is never released" % x.name, st.trace); return
def _model(name, n):
    def f(I, st, av, ins):
        k = libc.conc(I, st, av, 1); cells = ()
        if k:
            p = libc.concp(I, st, av, 0, k, False); o = I.check(st, p, k, False); cells = I.load_cells(st, o, p.off, k)
            if cells is None: I.event(st, "uninit", "hashes uninitialised bytes of %s" % o.name)
        q = libc.concp(I, st, av, 2, n, True); I.check(st, q, n, True)
        I.store_cells(st, st.wobj(q.o), q.off, [t.uf(name, (tuple(cells),), 8, i, taint=0) for i in range(n)])
        return 0
    return f
PUB = dict(OPAQUE); PUB.update({"fingera_btc_hash256": _model("hash256", 32), "fingera_btc_hash160": _model("hash160", 20)})
def mk(mod, label, fn, build, models=None, pre=ready, ends=("ret", "assert", "abort", "exit"), **kw):
    return Case(label, fn, build, spec, models=models if models is not None else PUB, pre=pre, ends=ends, nopin=True, must_return=kw.pop("must_return", True),
                opts=dict(track_secret=1, wipers=("fingera_cleanse",), rand_taint=1, on_free=watch(mod), merge=kw.pop("merge", True)), **kw)
def sec(env, name, n, **kw): return env.input(name, n, taint=1, **kw)

def dec58(ks, fails):
    """fingera_from_base58_check: any payload size with secret contents; on failure the buffer may hold any number of decoded bytes"""
    def f(I, st, av, ins):
        n = libc.conc(I, st, av, 1); out = []
        for k, ok in [(k, 1) for k in ks] + [(k, 0) for k in fails]:
            m = k + 4 if ok else k
            if m > n: continue
            s = st.clone()
            if m: I.check(s, av[2], m, True); I.store_cells(s, s.wobj(av[2].o), av[2].off, [t.sym("dec[%d]" % i, taint=1) for i in range(m)])
            out.append((s, k if ok else 0))
        return out
    return f
B = range(256)
def cases(thorough, mod):
    offsets(mod); out = []; XK = const_of(mod, "z_exkey"); XP = const_of(mod, "z_expub")
    A = lambda *a, **k: out.append(mk(mod, *a, **k))
    # hashes: every residue of the padding, one and several blocks
    for fn, b in (("fingera_sha1", 64), ("fingera_sha2_256", 64), ("fingera_ripemd160", 64), ("fingera_sha2_512", 128)):
        e = b - (16 if b == 128 else 8)
        ns = list(range(0, 2 * b + 2)) if thorough else sorted({0, 1, 2, 7, 8, 31, 32, e - 2, e - 1, e, e + 1, b - 2, b - 1, b, b + 1, b + e - 1, b + e, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b})
        for n in ns: A("%s of %d secret bytes" % (fn, n), fn, lambda env, n=n: [sec(env, "msg", n), n, env.output("hash", 64)], pre=None, models={}, cost=n)
    for fn, b, h in (("fingera_hmac_sha256", 64, 32), ("fingera_hmac_sha512", 128, 64)):
        for k in (1, h, b, b + 1) if not thorough else range(1, 2 * b + 2):
            for n in ((0, 37) if k != b + 1 else (0, 37, b)) if not thorough else (0, 1, 37, b - 9, b - 1, b, b + 1, 300):
                A("%s key %d message %d" % (fn, k, n), fn, lambda env, k=k, n=n: [sec(env, "key", k), k, sec(env, "msg", n), n, env.output("mac", 64)], pre=None, models={}, cost=300)
        A(fn + " opaque hash", fn, lambda env, b=b: [sec(env, "key", 3 * b), 3 * b, sec(env, "msg", 5), 5, env.output("mac", 64)], pre=None)
    A("bip32_hash", "fingera_btc_bip32_hash", lambda env: [sec(env, "chain", 32), env.num("child", 32), env.num("header", 8), sec(env, "data", 32), env.output("out", 64)])
    # curve operations on keys
    for l, c in (("hardened", (1 << 31, (1 << 32) - 1)), ("normal", (0, (1 << 31) - 1))):
        A("key_derive " + l, "fingera_btc_key_derive", lambda env, c=c: [sec(env, "key", 32), sec(env, "chain", 32), env.output("okey", 32), env.output("ochain", 32), env.num("child", 32, *c)])
        def both(env, c=c):
            k = sec(env, "key", 32, ro=False); h = sec(env, "chain", 32, ro=False)
            return [k, h, k, h, env.num("child", 32, *c)]
        A("key_derive in place " + l, "fingera_btc_key_derive", both)
    A("key_get_pub", "fingera_btc_key_get_pub", lambda env: [sec(env, "key", 32), env.output("pub", 64)])
    A("key_sign", "fingera_btc_key_sign", lambda env: [sec(env, "key", 32), env.input("hash", 32), env.output("sig", 64)], models=dict(PUB, **__import__("c25").limited("secp256k1_ecdsa_sign", 4)))
    A("key_new", "fingera_btc_key_new", lambda env: [env.output("key", 32)], models=dict(PUB, **__import__("c25").limited("secp256k1_ec_seckey_verify", 3)))
    for c in (0, 1):
        A("key_keyid %d" % c, "fingera_btc_key_keyid", lambda env, c=c: [sec(env, "key", 32), c, env.output("id", 20)])
        A("key_fingerprint %d" % c, "fingera_btc_key_fingerprint", lambda env, c=c: [sec(env, "key", 32), c])
    for n in (279, 214): A("key_encode %d" % n, "fingera_btc_key_encode", lambda env, n=n: [sec(env, "key", 32), env.output("der", n), n], must_return=False)
    for head in ((0x30, 0x81, 0xd3, 2, 1, 1, 4, 32), (0x30, 0x82, 1, 0x13, 2, 1, 1, 4, 32), (0x30, 0x81, 0xd3, 2, 1, 1, 4, 31), (0x30, 0x81, 0xd3, 2, 1, 1, 4, 33)):
        for n in (len(head), len(head) + 31, len(head) + 32, 214, 279):
            def build(env, head=head, n=n):
                p = env.input("der", n, taint=1, vals=list(head) + [None] * (n - len(head)))
                return [p, n, env.output("key", 32)]
            A("key_decode header %s, %d bytes" % (bytes(head).hex(), n), "fingera_btc_key_decode", build)
    A("key_init", "fingera_btc_key_init", lambda env: [], pre=None)
    A("key_init, real generator", "fingera_btc_key_init", lambda env: [], pre=None, models={k: v for k, v in PUB.items() if k != "fingera_os_rand_bytes"})
    for n in (1, 5, 32): A("os_rand_bytes %d" % n, "fingera_os_rand_bytes", lambda env, n=n: [env.output("buf", n), n], pre=None, models={})
    # extended keys
    def xk(env, name="xk"):
        p = env.input(name, XK, taint=1)
        return p
    A("exkey_init", "fingera_exkey_init", lambda env: [env.output("xk", XK), sec(env, "seed", 64), 64])
    A("exkey_init, real hash", "fingera_exkey_init", lambda env: [env.output("xk", XK), sec(env, "seed", 16), 16], models={})
    for l, c in (("hardened", (1 << 31, (1 << 32) - 1)), ("normal", (0, (1 << 31) - 1))):
        A("exkey_derive " + l, "fingera_exkey_derive", lambda env, c=c: [xk(env), env.output("out", XK), env.num("child", 32, *c), env.num("fp", 32)])
        def inplace(env, c=c):
            p = env.input("xk", XK, taint=1, ro=False)
            return [p, p, env.num("child", 32, *c), env.num("fp", 32)]
        A("exkey_derive in place " + l, "fingera_exkey_derive", inplace)
    A("exkey_get_pub", "fingera_exkey_get_pub", lambda env: [xk(env), env.output("xp", XP)])
    A("exkey_encode", "fingera_exkey_encode", lambda env: [xk(env), env.output("rec", 74)])
    A("exkey_decode", "fingera_exkey_decode", lambda env: [sec(env, "rec", 74), env.output("xk", XK)])
    # key strings, codec opaque
    m58 = {"fingera_to_base58_check": m_to58}
    for pre in (b"", b"\x80", b"\x80\x80", b"\x01\x02\x03\x04", b"\x01\x02\x03\x04\x05\x06\x07\x08"):
        p = len(pre)
        for c in (0, 1): A("key_to_string compressed=%d prefix %s" % (c, pre.hex()), "fingera_btc_key_to_string", lambda env, c=c, pre=pre: [sec(env, "key", 32), env.output("text", 80), c, chain(env, secret=pre)], models=dict(PUB, **m58), pre=None)
        A("exkey_to_string prefix %s" % pre.hex(), "fingera_exkey_to_string", lambda env, pre=pre: [xk(env), env.output("text", 160), chain(env, xprv=pre)], models=dict(PUB, **m58), pre=None)
        for n in (0, 3, 51, 52, 111, 120, 127, 128, 129, 130, 170, 200, 300):
            ks = sorted({0, 1, p, p + 1, p + 31, p + 32, p + 33, p + 34, p + 73, p + 74, p + 75, 110}); fl = (0, 3, 4, 5, 37, p + 36, p + 37, p + 78, 100, 128, 140)
            A("key_from_string %d characters prefix %s" % (n, pre.hex()), "fingera_btc_key_from_string", lambda env, n=n, pre=pre: [env.input("text", n), n, env.inout("key", 32), env.inout("flag", 4), chain(env, secret=pre)],
              models=dict(PUB, fingera_from_base58_check=dec58(ks, fl)), pre=None)
            A("exkey_from_string %d characters prefix %s" % (n, pre.hex()), "fingera_exkey_from_string", lambda env, n=n, pre=pre: [env.input("text", n), n, env.inout("xk", XK), chain(env, xprv=pre)],
              models=dict(PUB, fingera_from_base58_check=dec58(ks, fl)), pre=None)
    # the codec itself
    N = (1, 2, 5, 8) + ((16, 37) if thorough else ())
    for n in N: A("to_base58 of %d secret bytes" % n, "fingera_to_base58", lambda env, n=n: [sec(env, "in", n), n, env.output("out", n * 138 // 100 + 2)], pre=None, cost=n * 4)
    FIX = lambda n, free: [(7 * i + 1) & 255 or 1 for i in range(n - free)] + [None] * free
    for n in (33, 37, 78, 82, 91, 92, 93, 94, 100, 127, 128, 140):
        for fr in (1, 2): A("to_base58 of %d bytes, last %d secret" % (n, fr), "fingera_to_base58", lambda env, n=n, fr=fr: [env.input("in", n, vals=FIX(n, fr), taint=1), n, env.output("out", n * 138 // 100 + 2)], pre=None, cost=n)
        A("to_base58_check of %d bytes, last secret" % n, "fingera_to_base58_check", lambda env, n=n: [env.input("in", n, vals=FIX(n, 2), taint=1), n, env.const("prefix", b"\x80"), 1, env.output("out", (n + 5) * 138 // 100 + 2)], models=dict(PUB, fingera_to_base58=m_plain58), pre=None, cost=n)
    for n in (0, 1, 32, 118, 119, 120, 123, 124, 125, 200):
        for pl in (0, 1, 4, 8): A("to_base58_check of %d secret bytes, %d-byte prefix" % (n, pl), "fingera_to_base58_check", lambda env, n=n, pl=pl: [sec(env, "in", n), n, env.input("prefix", pl), pl, env.output("out", 300)], models=dict(PUB, fingera_to_base58=m_plain58), pre=None)
    D = [ord(c) for c in "23456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"]; W = [32, 9, 10]; ILL = [c for c in B if chr(c) not in "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz" and c and c not in (9, 10, 11, 12, 13, 32)]
    def txt(label, doms, cost):
        n = len(doms)
        A("from_base58 " + label, "fingera_from_base58", lambda env: [env.input("in", n, doms=[d if type(d) is not int else None for d in doms], vals=[d if type(d) is int else None for d in doms], taint=1), n, env.output("out", n)], pre=None, cost=cost)
    for n in (1, 2, 3, 5, 8): txt("%d secret digits" % n, [D] * n, n * 4)
    for n in (2, 3, 51, 52, 111, 170, 172, 173, 174, 175, 176, 200):
        x = [D[(5 * i + 3) % 57] for i in range(n)]
        for nm, tail in (("2 secret digits", [D, D]), ("illegal character after a secret digit", [D, ILL]), ("space", [D, W]), ("space, then more", [D, W, D]), ("space, then an illegal character", [D, W, ILL]), ("NUL", [D, 0]), ("NUL, then more", [D, 0, D])):
            txt("%d digits, %s" % (n, nm), x + tail, n); 
        txt("%d digits, illegal character, more" % n, [D] + [ILL] + x, n)
    for n in (8, 52, 111, 173): A("from_base58_check %d" % n, "fingera_from_base58_check", lambda env, n=n: [env.input("in", n), n, env.output("out", n)], models=dict(PUB, fingera_from_base58=m_dec58), pre=None)
    return out
def m_to58(I, st, av, ins):
    k = libc.conc(I, st, av, 1); I.check(st, av[4], 10, True); I.store_cells(st, st.wobj(av[4].o), av[4].off, [t.sym("enc[%d]" % i) for i in range(10)])
    return 10
def m_plain58(I, st, av, ins):
    I.check(st, av[2], 10, True); I.store_cells(st, st.wobj(av[2].o), av[2].off, [t.sym("enc[%d]" % i) for i in range(10)])
    return 10
def m_dec58(I, st, av, ins):
    n = libc.conc(I, st, av, 1); out = []
    for m in (0, 1, 3, 4, 5, 8, 37, 38, 82):
        if m > n: continue
        s = st.clone()
        if m: I.check(s, av[2], m, True); I.store_cells(s, s.wobj(av[2].o), av[2].off, [t.sym("dec[%d]" % i, taint=1) for i in range(m)])
        out.append((s, m))
    return out
