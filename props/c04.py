"""C04: BIP32 extended-key records are laid out per BIP32 and survive a round trip."""
import terms as t
from check import Case
from interp import P
from spec import *
LEVEL = "proof"
EXPLAIN = ("the record encoders and decoders and the endian helpers are interpreted with every field byte an unknown; field positions in the structures come from the "
           "compiler, record positions from BIP32, and each byte of the result is compared with the byte that must stand there")
ASSUME = ["little-endian target (the build's own)"]

FIELDS = [("depth", 1), ("fingerprint", 4), ("child", 4), ("chain_code", 32)]
def layout(mod, kind):
    """[(record position list, structure offset)] pairs, byte for byte"""
    pre = "ext" if kind == "exkey" else "expub"
    g = lambda n: const_of(mod, "o_%s" % n)
    f = {n: g("%s_%s" % (pre, n)) for n, _ in FIELDS}
    m = [(0, f["depth"])]
    m += [(1 + i, f["fingerprint"] + i) for i in range(4)]               # as produced: little-endian integer of the id's first bytes
    m += [(5 + i, f["child"] + 3 - i) for i in range(4)]                 # big-endian in the record
    m += [(9 + i, f["chain_code"] + i) for i in range(32)]
    if kind == "exkey": m += [(42 + i, g("exkey_key") + i) for i in range(32)]
    else: m += [(41 + i, g("expub_pubkey") + i) for i in range(33)]
    return m, const_of(mod, "z_" + kind)

def const_of(mod, fn, *args):
    """the constant a layout function returns"""
    import re
    f = mod.funcs[fn]
    from check import Analysis
    I = Analysis(mod, 1e18).interp({})
    st = I.initial(); return I.call(st, fn, list(args))[0].rv

def enc(kind, m, size, enc_fn):
    def build(env): return [env.input("key", size), env.output("rec", 74)]
    def spec(env, st, o):
        want = [0] * 74
        for r, s in m: want[r] = env.data["key"][s]
        o.bytes("record", "rec", want)
    return Case(enc_fn, enc_fn, build, spec)
def dec(kind, m, size, dec_fn):
    def build(env): return [env.input("rec", 74), env.output("key", size)]
    def spec(env, st, o):
        for r, s in m: o.bytes("field byte", "key", [env.data["rec"][r]], s)
    return Case(dec_fn, dec_fn, build, spec)
def rt(kind, m, size, enc_fn, dec_fn):
    def build(env):
        k = env.input("key", size); r = env.output("rec", 74); b = env.output("back", size)
        return [(enc_fn, [k, r]), (dec_fn, [r, b])]
    def spec(env, st, o):
        for r, s in m: o.bytes("restored field byte", "back", [env.data["key"][s]], s)
    return Case("%s o %s" % (dec_fn, enc_fn), dec_fn, build, spec)
def rt2(kind, m, size, enc_fn, dec_fn):
    def build(env):
        r = env.input("rec", 74); k = env.output("key", size); b = env.output("back", 74)
        return [(dec_fn, [r, k]), (enc_fn, [k, b])]
    def spec(env, st, o):
        want = list(env.data["rec"])
        if kind == "exkey": want[41] = 0
        o.bytes("re-encoded record", "back", want)
    return Case("%s o %s" % (enc_fn, dec_fn), enc_fn, build, spec)

def reader(fn, nb, big, off):
    def build(env):
        p = env.input("mem", 16)
        return [P(p.o, off)] if off is not None and fn.startswith("w_read") else [p, off]
    def spec(env, st, o):
        b = env.data["mem"][off:off + nb]
        o.ret(beword(b) if big else leword(b), 8 * nb)
    return Case("%s at %d" % (fn, off), fn, build, spec)
def writer(fn, big, off):
    def build(env):
        p = env.output("mem", 12); v = env.word("v", 4)
        return [P(p.o, off), v]
    def spec(env, st, o):
        v = env.data["v"]
        o.bytes("memory", "mem", [None] * off + (v[::-1] if big else v) + [None] * (8 - off))
    return Case("%s at %d" % (fn, off), fn, build, spec)

def cases(thorough, mod):
    out = []
    for kind, e, d in (("exkey", "fingera_exkey_encode", "fingera_exkey_decode"), ("expub", "fingera_expubkey_encode", "fingera_expubkey_decode")):
        m, size = layout(mod, kind)
        out += [enc(kind, m, size, e), dec(kind, m, size, d), rt(kind, m, size, e, d), rt2(kind, m, size, e, d)]
    for nb in (4, 8):
        for big, nm in ((False, "little"), (True, "big")):
            for off in (0, 1, 3, 8): out.append(reader("w_read_%s_%d" % (nm, 8 * nb), nb, big, off))
        for big, nm in ((False, "le"), (True, "be")):
            for off in (0, 1, 2, 5, 8): out.append(reader("w_%s%d" % (nm, 8 * nb), nb, big, off))
    for off in (0, 1, 3, 8):
        out.append(writer("w_write_little_32", False, off)); out.append(writer("w_write_big_32", True, off))
    return out
