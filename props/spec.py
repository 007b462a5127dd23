"""Reference definitions over the value-graph domain, written from the standards alone
(RFC 4648, FIPS 180-4, RIPEMD-160, RFC 2104, BIP32, BIP173)."""
import terms as t
from terms import T, M

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64U = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
B32 = b"abcdefghijklmnopqrstuvwxyz234567"
HEXL = b"0123456789abcdef"
HEXU = b"0123456789ABCDEF"
B58 = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
BECH = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"

def bits(v, w=8):
    """bits of v, most significant first"""
    return [t.ext(v, w - 1 - i, 1) for i in range(w)]
def regroup(data, k, w=8, pad=True):
    """w-bit items -> k-bit items, big-endian bit order; a final partial group is zero padded (or dropped)"""
    bs = [b for d in data for b in bits(d, w)]
    if len(bs) % k:
        bs = bs + [0] * (k - len(bs) % k) if pad else bs[:len(bs) - len(bs) % k]
    return [t.cat([(b, 1) for b in reversed(bs[i:i + k])]) for i in range(0, len(bs), k)]
def letter(alpha, v): return t.lut(list(alpha), v, 8)
def widen(v, frm, to): return v if type(v) is int else t.zext(v, frm, to)

def rfc4648(data, k, alpha, block=None):
    """text of `data` in base 2^k; padded with '=' to a multiple of `block` characters"""
    s = [letter(alpha, g) for g in regroup(data, k)]
    while block and len(s) % block: s.append(ord("="))
    return s

def beword(bs):
    """big-endian bytes -> word"""
    return t.cat([(b, 8) for b in reversed(list(bs))])
def leword(bs): return t.cat([(b, 8) for b in bs])
def bebytes(v, n): return [t.ext(v, 8 * (n - 1 - i), 8) for i in range(n)]
def lebytes(v, n): return [t.ext(v, 8 * i, 8) for i in range(n)]
def rotl(x, k, w): k %= w; return t.bor(t.shl(x, k, w), t.lshr(x, w - k, w), w) if k else x
def rotr(x, k, w): return rotl(x, w - k, w)
def xors(w, *a):
    r = 0
    for x in a: r = t.bxor(r, x, w)
    return r
def sums(w, *a):
    r = 0
    for x in a: r = t.add(r, x, w)
    return r

# ------------------------------------------------------------------ FIPS 180-4
def _primes(n):
    out = []; k = 2
    while len(out) < n:
        if all(k % p for p in out if p * p <= k): out.append(k)
        k += 1
    return out
def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def _frac(p, k, w): return _iroot(p << (k * w), k) & M[w]
K256 = [_frac(p, 3, 32) for p in _primes(64)]
H256 = [_frac(p, 2, 32) for p in _primes(8)]
K512 = [_frac(p, 3, 64) for p in _primes(80)]
H512 = [_frac(p, 2, 64) for p in _primes(8)]

def md_pad(data, block, lenbytes, big=True, total=None):
    n = len(data); d = list(data) + [0x80]
    while (len(d) + lenbytes) % block: d.append(0)
    L = 8 * (n if total is None else total)
    return d + (bebytes(L, lenbytes) if big else lebytes(L & M[64], lenbytes))

def sha2_block(H, blk, w):
    wb = w // 8
    W = [beword(blk[i * wb:(i + 1) * wb]) for i in range(16)]
    if w == 32: K, rounds, S0, S1, s0, s1 = K256, 64, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)
    else: K, rounds, S0, S1, s0, s1 = K512, 80, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)
    sg = lambda x, c: xors(w, rotr(x, c[0], w), rotr(x, c[1], w), t.lshr(x, c[2], w))
    Sg = lambda x, c: xors(w, *[rotr(x, k, w) for k in c])
    for i in range(16, rounds): W.append(sums(w, sg(W[i - 2], s1), W[i - 7], sg(W[i - 15], s0), W[i - 16]))
    a, b, c, d, e, f, g, h = H
    for i in range(rounds):
        ch = t.bxor(t.band(e, f, w), t.band(t.bnot(e, w), g, w), w)
        mj = xors(w, t.band(a, b, w), t.band(a, c, w), t.band(b, c, w))
        t1 = sums(w, h, Sg(e, S1), ch, K[i], W[i]); t2 = t.add(Sg(a, S0), mj, w)
        a, b, c, d, e, f, g, h = t.add(t1, t2, w), a, b, c, t.add(d, t1, w), e, f, g
    return [t.add(x, y, w) for x, y in zip(H, (a, b, c, d, e, f, g, h))]
# Lemma cut: a chaining word of the reference is named by an unknown; the engine gives the
# analysed code's stores the same name when they store the very same value graph.
CUT = None
def cutw(x, w):
    if CUT is None or type(x) is not T: return x
    r = CUT.get(x)
    if r is None: r = CUT[x] = t.sym("cut%d" % len(CUT), w, taint=x.taint)
    return r
def _run(H, data, block, f):
    w = block // 2
    for i in range(0, len(data), block): H = [cutw(x, w) for x in f(H, data[i:i + block])]
    return H
def cuts(I, st, env):
    """switch the lemma cut on for one case"""
    global CUT
    CUT = {}; I.cut = CUT; env.defs = CUT
def sha256(data, total=None):
    H = _run(list(H256), md_pad(data, 64, 8, total=total), 64, lambda H, b: sha2_block(H, b, 32))
    return [x for v in H for x in bebytes(v, 4)]
def sha512(data, total=None):
    H = _run(list(H512), md_pad(data, 128, 16, total=total), 128, lambda H, b: sha2_block(H, b, 64))
    return [x for v in H for x in bebytes(v, 8)]

def sha1_block(H, blk):
    w = 32
    W = [beword(blk[4 * i:4 * i + 4]) for i in range(16)]
    for i in range(16, 80): W.append(rotl(xors(w, W[i - 3], W[i - 8], W[i - 14], W[i - 16]), 1, w))
    a, b, c, d, e = H
    for i in range(80):
        if i < 20: f, k = t.bxor(t.band(b, c, w), t.band(t.bnot(b, w), d, w), w), 0x5a827999
        elif i < 40: f, k = xors(w, b, c, d), 0x6ed9eba1
        elif i < 60: f, k = xors(w, t.band(b, c, w), t.band(b, d, w), t.band(c, d, w)), 0x8f1bbcdc
        else: f, k = xors(w, b, c, d), 0xca62c1d6
        a, b, c, d, e = sums(w, rotl(a, 5, w), f, e, k, W[i]), a, rotl(b, 30, w), c, d
    return [t.add(x, y, w) for x, y in zip(H, (a, b, c, d, e))]
SHA1_IV = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
def sha1(data, total=None):
    H = _run([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], md_pad(data, 64, 8, total=total), 64, sha1_block)
    return [x for v in H for x in bebytes(v, 4)]

# ------------------------------------------------------------------ RIPEMD-160
_RL = [list(range(16)),
       [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]]
_rho = _RL[1]
def _mkr():
    r = [list(range(16))]
    for i in range(4): r.append([_rho[x] for x in r[-1]])
    pi = [(9 * i + 5) % 16 for i in range(16)]
    rr = [pi]
    for i in range(4): rr.append([_rho[x] for x in rr[-1]])
    return r, rr
RMD_R, RMD_RR = _mkr()
# shift amounts are given per round and message word
_SH = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
       [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
       [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
       [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
       [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
_KL = [0] + [_iroot(p << 60, 2) & M[32] for p in (2, 3, 5, 7)]
_KR = [_iroot(p << 90, 3) & M[32] for p in (2, 3, 5, 7)] + [0]
def _rf(j, x, y, z):
    w = 32
    if j == 0: return xors(w, x, y, z)
    if j == 1: return t.bor(t.band(x, y, w), t.band(t.bnot(x, w), z, w), w)
    if j == 2: return t.bxor(t.bor(x, t.bnot(y, w), w), z, w)
    if j == 3: return t.bor(t.band(x, z, w), t.band(y, t.bnot(z, w), w), w)
    return t.bxor(x, t.bor(y, t.bnot(z, w), w), w)
def rmd_block(H, blk):
    w = 32
    X = [leword(blk[4 * i:4 * i + 4]) for i in range(16)]
    def line(order, K, fo):
        a, b, c, d, e = H
        for j in range(5):
            for i in range(16):
                k = order[j][i]
                a = t.add(rotl(sums(w, a, _rf(fo(j), b, c, d), X[k], K[j]), _SH[j][k], w), e, w)
                a, b, c, d, e = e, a, b, rotl(c, 10, w), d
        return a, b, c, d, e
    a, b, c, d, e = line(RMD_R, _KL, lambda j: j)
    aa, bb, cc, dd, ee = line(RMD_RR, _KR, lambda j: 4 - j)
    return [sums(w, H[1], c, dd), sums(w, H[2], d, ee), sums(w, H[3], e, aa), sums(w, H[4], a, bb), sums(w, H[0], b, cc)]
def ripemd160(data, total=None):
    H = _run([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], md_pad(data, 64, 8, big=False, total=total), 64, rmd_block)
    return [x for v in H for x in lebytes(v, 4)]

# ------------------------------------------------------------------ RFC 2104
def hmac(H, block, key, msg):
    k = list(key)
    if len(k) > block: k = H(k)
    k = k + [0] * (block - len(k))
    inner = H([t.bxor(x, 0x36, 8) for x in k] + list(msg))
    return H([t.bxor(x, 0x5c, 8) for x in k] + list(inner))

# ------------------------------------------------------------------ uninterpreted hashes
def ufbytes(name, args, n): return [t.uf(name, args, 8, i) for i in range(n)]
def u_sha256(m): return ufbytes("sha256", (tuple(m),), 32)
def u_sha512(m): return ufbytes("sha512", (tuple(m),), 64)
def u_ripemd(m): return ufbytes("ripemd160", (tuple(m),), 20)
def u_hash256(m): return u_sha256(u_sha256(m))
def u_hash160(m): return u_ripemd(u_sha256(m))
def u_hmac512(k, m): return ufbytes("hmac_sha512", (tuple(k), tuple(m)), 64)
def u_hmac256(k, m): return ufbytes("hmac_sha256", (tuple(k), tuple(m)), 32)

def _model_hash(name, outn):
    """opaque model of a hash entry point (msg, len, out): used where another property covers the hash itself"""
    import libc
    from interp import UND
    def f(I, st, av, ins):
        n = libc.conc(I, st, av, 1); cells = ()
        if n:
            p = libc.concp(I, st, av, 0, n, False); o = I.check(st, p, n, False); cells = I.load_cells(st, o, p.off, n)
            if cells is None: I.event(st, "uninit", "hashes uninitialised bytes of %s" % o.name)
        q = libc.concp(I, st, av, 2, outn, True); I.check(st, q, outn, True)
        I.store_cells(st, st.wobj(q.o), q.off, ufbytes(name, (tuple(cells),), outn))
        return 0
    return f
def _model_hmac(name, outn):
    import libc
    def f(I, st, av, ins):
        a = []
        for pi, ni in ((0, 1), (2, 3)):
            n = libc.conc(I, st, av, ni); cells = ()
            if n:
                p = libc.concp(I, st, av, pi, n, False); o = I.check(st, p, n, False); cells = I.load_cells(st, o, p.off, n)
                if cells is None: I.event(st, "uninit", "hashes uninitialised bytes of %s" % o.name)
            a.append(tuple(cells))
        q = libc.concp(I, st, av, 4, outn, True); I.check(st, q, outn, True)
        I.store_cells(st, st.wobj(q.o), q.off, ufbytes(name, a, outn))
        return 0
    return f
HASH_MODELS = {"fingera_sha2_256": _model_hash("sha256", 32), "fingera_sha2_512": _model_hash("sha512", 64), "fingera_ripemd160": _model_hash("ripemd160", 20),
               "fingera_sha1": _model_hash("sha1", 20), "fingera_hmac_sha512": _model_hmac("hmac_sha512", 64), "fingera_hmac_sha256": _model_hmac("hmac_sha256", 32)}

def _evals():
    """random interpretation evaluates the opaque hashes as the functions they stand for"""
    import hashlib, hmac as hm
    t.UF_EVAL.update(sha256=lambda m: hashlib.sha256(bytes(m)).digest(), sha512=lambda m: hashlib.sha512(bytes(m)).digest(),
                     sha1=lambda m: hashlib.sha1(bytes(m)).digest(), ripemd160=lambda m: bytes(ripemd160(list(m))),
                     hmac_sha256=lambda k, m: hm.new(bytes(k), bytes(m), "sha256").digest(), hmac_sha512=lambda k, m: hm.new(bytes(k), bytes(m), "sha512").digest())
_evals()

if __name__ == "__main__":
    import hashlib, hmac as hm
    for n in (0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 200):
        m = bytes((i * 7 + n) & 255 for i in range(n))
        assert bytes(sha1(m)) == hashlib.sha1(m).digest() and bytes(sha256(m)) == hashlib.sha256(m).digest() and bytes(sha512(m)) == hashlib.sha512(m).digest()
        assert bytes(hmac(sha256, 64, m, m)) == hm.new(m, m, "sha256").digest() and bytes(hmac(sha512, 128, m, m)) == hm.new(m, m, "sha512").digest()
    assert bytes(ripemd160(b"abc")).hex() == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"
    assert bytes(ripemd160(b"12345678901234567890123456789012345678901234567890123456789012345678901234567890")).hex() == "9b752e45573d4b39f4dbd3323cab82bf63326bfb"
    import base64
    for n in range(12):
        m = bytes((i * 77 + n) & 255 for i in range(n))
        assert bytes(rfc4648(m, 6, B64, 4)) == base64.b64encode(m) and bytes(rfc4648(m, 5, B32, 8)) == base64.b32encode(m).lower()
    print("reference definitions agree with their published vectors")
