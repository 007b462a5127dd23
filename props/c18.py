"""C18: DER private keys decode back to the key that was encoded."""
from check import Case
from btc import *
from der import free, outside, NZ
LEVEL = "other"
EXPLAIN = ("encoding is compared byte for byte with the SEC1 ECPrivateKey structure assembled from the standard's grammar and curve constants, for an unknown key; decoding is interpreted over that structure "
           "with unknown key bytes and over variations of it (shorter and longer strings, other lengths and tags, truncation at every byte, trailing bytes): the key must come back exactly when the curve "
           "library accepts it, and failure be reported otherwise")
ASSUME = ["libsecp256k1 behaves as documented (uninterpreted functions, both verdicts)"]
P_ = (1 << 256) - (1 << 32) - 977
N_ = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
def tlv(tag, body):
    n = len(body); l = [n] if n < 128 else [0x81, n] if n < 256 else [0x82, n >> 8, n & 255]
    return [tag] + l + list(body)
def integer(v): return tlv(2, v.to_bytes(v.bit_length() // 8 + 1, "big"))
def b32(v): return list(v.to_bytes(32, "big"))
def sec1(key, pub):
    """RFC 5915 / SEC1 C.4 ECPrivateKey with explicit secp256k1 parameters"""
    g = [2 + (GY & 1)] + b32(GX) if len(pub) == 33 else [4] + b32(GX) + b32(GY)
    field = tlv(0x30, tlv(6, [0x2A, 0x86, 0x48, 0xCE, 0x3D, 1, 1]) + integer(P_))
    params = tlv(0x30, integer(1) + field + tlv(0x30, tlv(4, [0]) + tlv(4, [7])) + tlv(4, g) + integer(N_) + integer(1))
    # the sequence's own length uses the long form even when it is short enough not to
    return tlv(0x30, integer(1) + tlv(4, key) + tlv(0xA0, params) + tlv(0xA1, tlv(3, [0] + list(pub))))
def enc(n):
    def build(env): return [env.input("key", 32), env.output("der", n), n]
    def spec(env, st, o):
        if st.end != "ret": return excused(st, o)
        k = env.data["key"]; ok = env.I.decide(st, t.uf("ok:seckey_verify", (tuple(k),), 1, taint=0))
        if ok is None: o.fail("status", "does not depend on whether the key is valid", st.trace); return
        if not ok: o.truth(0); return
        o.truth(1); want = sec1(k, ser(pub(k), 33 if n == 214 else 65))
        assert len(want) == n
        for i, w in enumerate(want): o.eq("der[%d]" % i, st.rd("der", i), w)
    return Case("encode %d" % n, "fingera_btc_key_encode", build, spec, pre=ready, models=OPAQUE, ends=("ret", "assert"))
def badlen(n):
    def spec(env, st, o):
        if st.end == "assert": o.ok(); return
        o.truth(0); o.untouched("der", "der", 0, min(n, 400), None)
    return Case("encode into %d" % n, "fingera_btc_key_encode", lambda env: [env.input("key", 32), env.output("der", min(n, 400)), n], spec, pre=ready, models=OPAQUE, ends=("ret", "assert"), must_return=False)

def parse(cells):
    """reference: None (reject) or the range of the key octets"""
    n = len(cells); pos = 0
    def isv(i, v):
        if i >= n: return False
        c = cells[i]
        if type(c) is int: return c == v
        if c is None or v in c: raise RuntimeError("ambiguous")
        return False
    def val(i):
        if type(cells[i]) is not int: raise RuntimeError("ambiguous")
        return cells[i]
    if not isv(0, 0x30) or n < 2: return None
    c = cells[1]
    if type(c) is not int:
        if c is None: raise RuntimeError("ambiguous")
        if all(x < 0x81 or x > 0x82 for x in c): return None
        raise RuntimeError("ambiguous")
    if c not in (0x81, 0x82): return None
    k = c & 127; pos = 2
    if n - pos < k: return None
    ln = 0
    for i in range(k): ln = ln << 8 | val(pos + i)
    pos += k
    if n - pos < ln: return None
    for v in (2, 1, 1):
        if not isv(pos, v): return None
        pos += 1
    if not isv(pos, 4): return None
    pos += 1
    if pos >= n: return None
    c = cells[pos]; rest = n - pos - 1
    if type(c) is not int:
        if min(c) > min(32, rest): return None
        raise RuntimeError("ambiguous")
    if c > 32 or c > rest: return None
    return pos + 1, c
def dec(label, cells):
    n = len(cells); ref = parse(cells)
    def build(env):
        return [env.input("der", n, vals=[c if type(c) is int else None for c in cells], doms=[None if type(c) is int else c for c in cells]), n, env.output("key", 32)]
    def spec(env, st, o):
        if ref is None: o.truth(0); return
        a, k = ref; d = [0] * (32 - k) + env.data["der"][a:a + k]
        ok = env.I.decide(st, t.uf("ok:seckey_verify", (tuple(d),), 1, taint=0))
        if ok is None and all(type(x) is int and x == 0 for x in d): ok = 0       # never a valid key
        if ok is None: o.fail("status", "does not depend on whether the encoded key is valid", st.trace); return
        o.truth(ok)
        if ok:
            for i, w in enumerate(d): o.eq("key[%d]" % i, st.rd("key", i), w)
    return Case("decode " + label, "fingera_btc_key_decode", build, spec, pre=ready, models=OPAQUE, cost=n)
def hdr(n): return [0x30, 0x81, n] if n < 256 else [0x30, 0x82, n >> 8, n & 255]
def cases(thorough, mod):
    out = [enc(214), enc(279)]
    for n in (0, 1, 32, 33, 213, 215, 278, 280, 214 + 65536, 279 + (1 << 32)): out.append(badlen(n))
    full = {}
    for m in (33, 65):
        full[m] = sec1([None] * 32, [None] * m); out.append(dec("encoding with a %d-byte public key" % m, full[m]))
        out.append(dec("encoding with a %d-byte public key and 5 more bytes" % m, full[m] + free(5)))
        x = full[m]
        for k in range(0, len(x), 1 if thorough else 3): out.append(dec("%d-byte form cut at %d" % (len(x), k), x[:k]))
        for at in range(0, len(hdr(len(x))) + 5):
            v = x[at]
            if type(v) is not int: continue
            ln = len(hdr(len(x) - 3)) - 1
            if at == 0 or ln < at <= ln + 4: y = list(x); y[at] = outside(v); out.append(dec("%d-byte form, wrong byte %d" % (len(x), at), y))
    body = lambda k, m=None: [2, 1, 1, 4, k] + free(k if m is None else m)
    for k in range(0, 33):
        b = body(k)
        for h in ([0x30, 0x81, len(b)], [0x30, 0x82, 0, len(b)]): out.append(dec("octet string of %d, %d header bytes" % (k, len(h)), h + b))
        out.append(dec("octet string of %d and 3 more bytes" % k, [0x30, 0x81, len(b)] + b + free(3)))
        if k: out.append(dec("octet string of %d with a byte missing" % k, [0x30, 0x81, len(b) - 1] + b[:-1]))
        out.append(dec("sequence longer than its %d bytes" % len(b), [0x30, 0x81, len(b) + 1] + b)); out.append(dec("sequence far longer than its %d bytes" % len(b), [0x30, 0x82, 1, len(b)] + b))
    for k in (33, 34, 64, 65, 100, 127, 128, 200, 255): out.append(dec("octet string of %d" % k, hdr(5 + k) + body(k)))
    for k in (0, 5, 20, 31): out.append(dec("octet string beyond the %d bytes left" % k, hdr(5 + k) + [2, 1, 1, 4, range(k + 1, 256)] + free(k)))
    b = body(32)
    out.append(dec("sequence length byte other than 0x81, 0x82", [0x30, outside(0x81, 0x82)] + free(2) + b))
    for k in (3, 4): out.append(dec("sequence length of %d bytes" % k, [0x30, 0x80 + k] + [0] * (k - 1) + [len(b)] + b))
    for i in range(4): y = list(b); y[i] = outside(b[i]); out.append(dec("wrong element byte %d" % i, [0x30, 0x81, len(b)] + y))
    out.append(dec("wrong tag", [outside(0x30), 0x81, len(b)] + b))
    return out
