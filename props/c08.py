"""C08: varint and zigzag integers round-trip, and bad encodings are refused."""
import terms as t
from terms import M
from check import Case
from spec import *
LEVEL = "proof"
EXPLAIN = ("encoders and decoders are interpreted over a partition of the 64-bit values by encoded length, and of the byte strings by continuation pattern and by "
           "comparison with the largest encoding; interval facts decide every branch, value terms are compared with the definition")
ASSUME = []
OFF = [0, 0]
for i in range(1, 11): OFF.append(OFF[-1] + 128 ** i)          # OFF[L]: smallest value that takes L bytes
def span(L): return OFF[L], min(OFF[L + 1] - 1, M[64])

def wire(v, L):
    """bytes of v in L base-128 digits with bijective offset"""
    out = []
    for i in range(L):
        out.append(t.bor(t.band(t.trunc(v, 8) if type(v) is T else v & 255, 0x7f, 8), 0x80 if i else 0, 8))
        v = t.sub(t.lshr(v, 7, 64), 1, 64)
    return out[::-1]
def value(bs):
    v = 0
    for i, b in enumerate(bs):
        v = t.bor(t.shl(v, 7, 64), widen(t.ext(b, 0, 7), 7, 64), 64)
        if i < len(bs) - 1: v = t.add(v, 1, 64)
    return v

def enc_case(L, lo, hi):
    def build(env):
        v = env.num("value", 64, lo, hi); env.v = v
        return [v, env.output("out", 10)]
    def spec(env, st, o):
        o.ret(L); o.bytes("encoding", "out", wire(env.v, L)); o.untouched("beyond", "out", L, 10)
    return Case("encode_varint %d bytes [%d,%d]" % (L, lo, hi), "fingera_encode_varint", build, spec)
def rt_case(kind, L, lo, hi, extra):
    enc, dec = "fingera_encode_" + kind, "fingera_decode_" + kind
    def build(env):
        v = env.num("value", 64, lo, hi); env.v = v
        buf = env.inout("buf", L + extra) if L + extra else None; res = env.output("res", 8)
        # room for a full encoding, of which exactly the written bytes (plus trailing ones) are decoded
        big = env.inout("enc", 10 + extra)
        return [(enc, [v, big]), (dec, lambda env, x, I: chk(env, x, L) + [(x, [big, L + extra, res])])]
    def chk(env, x, L):
        env.len_ok = x.rv; return []
    def spec(env, st, o):
        o.eq("encoded length", env.len_ok, L); o.ret(L)
        o.bytes("round trip", "res", lebytes(env.v, 8))
    return Case("%s round trip, %d bytes + %d more, [%d,%d]" % (kind, L, extra, lo, hi), dec, build, spec)

def dec_case(n, doms, L, tag, kind="varint"):
    """L: expected count, 0 when refused"""
    def build(env):
        return [env.input("buf", n, doms=doms), n, env.output("res", 8)]
    def spec(env, st, o):
        o.ret(L)
        if L and kind == "varint": o.bytes("value", "res", lebytes(value(env.data["buf"][:L]), 8))
    return Case("decode_%s n=%d %s" % (kind, n, tag), "fingera_decode_" + kind, build, spec)

def decode_partition():
    """(bytes available, per-byte domains, expected count, label)"""
    C = range(0x80, 0x100); E = range(0, 0x80); A = range(256); out = []
    for L in range(1, 10):
        for extra in (0, 1, 5): out.append((L + extra, [C] * (L - 1) + [E] + [A] * extra, L, "%d-byte encoding" % L))
    for extra in (0, 3):
        for k in range(9):
            p = [[0x80]] + [[0xfe]] * (k - 1) if k else []
            if k: out.append((10 + extra, p + [range(0x80, 0xfe)] + [C] * (8 - k) + [E] + [A] * extra, 10, "10 bytes, below the maximum at byte %d" % k))
            above = range(0x81, 0x100) if k == 0 else [0xff]
            out.append((10 + extra, p + [above] + [C] * (8 - k) + [E] + [A] * extra, 0, "10 bytes, above 2^64-1 at byte %d" % k))
        out.append((10 + extra, [[0x80]] + [[0xfe]] * 8 + [E] + [A] * extra, 10, "10 bytes, largest values"))
    for n in range(0, 14): out.append((n, [C] * n, 0, "truncated after %d" % n))
    for n in (11, 12, 20):
        out.append((n, [[0x80]] + [C] * 9 + [E] + [A] * (n - 11), 0, "eleven-byte encoding"))
        out.append((n, [C] * (n - 1) + [E], 0, "%d-byte encoding" % n))
    return out

def cases(thorough, mod):
    out = []
    for L in range(1, 11):
        lo, hi = span(L)
        out.append(enc_case(L, lo, hi)); out.append(enc_case(L, lo, lo)); out.append(enc_case(L, hi, hi))
        for x in (0, 1, 7): out.append(rt_case("varint", L, lo, hi, x))
        # zigzag: magnitude << 1 | sign
        for x in (0, 3):
            a, b = (lo + 1) // 2, hi // 2
            if a <= b: out.append(rt_case("zigzag", L, a, min(b, M[63]), x))
            a, b = lo // 2, (hi - 1) // 2
            a = max(a, 1); b = min(b, M[63])
            if a <= b: out.append(rt_case("zigzag", L, (1 << 64) - b, (1 << 64) - a, x))
    out.append(rt_case("zigzag", 1, 1 << 63, 1 << 63, 0)); out.append(rt_case("zigzag", 1, 1 << 63, 1 << 63, 2))
    for n, d, L, tag in decode_partition():
        out.append(dec_case(n, d, L, tag)); 
        out.append(dec_case(n, d, L, tag, "zigzag"))
    return out

def memory(thorough):
    """memory-only obligations, shared with C07"""
    ok = lambda env, st, o: o.ok()
    out = []
    for k in ("varint", "zigzag"):
        for lo, hi in ((0, M[63]), (1 << 63, 1 << 63), ((1 << 63) + 1, M[64])):
            out.append(Case("encode_%s [%d,%d]" % (k, lo, hi), "fingera_encode_" + k, lambda env, lo=lo, hi=hi: [env.num("value", 64, lo, hi), env.output("out", 10)], ok))
        for n in range(0, 13):
            out.append(Case("decode_%s any %d bytes" % (k, n), "fingera_decode_" + k, lambda env, n=n: [env.input("buf", n), n, env.output("res", 8)], ok))
    return out
