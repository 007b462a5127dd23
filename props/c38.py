"""C38: the length helpers announce what the operations write."""
import terms as t
from terms import M
from check import Case
from interp import P
SEQ = False
LEVEL = "other"
EXPLAIN = ("every length helper of the public headers is interpreted for the sizes of the partition (the texts' characters unknown where they do not matter) and its result compared with the length the format defines: "
           "exactly for hex, Base64, Base32 and Bech32 encoders and for well-formed text given to decoders, at least the longest possible result for Base58, Base58Check, WIF and extended-key strings and for malformed text")
ASSUME = ["sizes are enumerated: all small ones, then values around powers of two and multiples of the block sizes up to 2^40"]

def need58(n):
    """characters the value of n bytes may need"""
    if n <= 6000:
        v = 256 ** n - 1; d = 0
        if v:
            d = max(0, int(v.bit_length() * 0.17070) - 2)
            p = 58 ** d
            while p <= v: p *= 58; d += 1
        return d
    return n * 13656582 // 10000000      # log 256 / log 58 = 1.36565823..., rounded up; floor stays below the true bound
def exact(fn, n, want, *more):
    def spec(env, st, o): o.ret(want)
    return Case("%s %s" % (fn, " ".join(str(x) for x in (n,) + more)), fn, lambda env: [n] + list(more), spec, nopin=True)
def atleast(fn, args, lo, hi=None):
    def spec(env, st, o):
        v = st.rv
        if type(v) is not int: o.eq("length", v, lo, 64); return
        if v < lo: o.fail("length", "is %d, but %d can be needed" % (v, lo))
        elif hi is not None and v > hi: o.fail("length", "is %d, far more than the %d that can be needed" % (v, lo))
        else: o.ok()
    return Case("%s %s" % (fn, " ".join(map(str, args))), fn, lambda env: list(args), spec, nopin=True)
def dec64(n): return n // 4 * 3 + {0: 0, 1: 0, 2: 1, 3: 2}[n % 4]
def dec32(n): return n // 8 * 5 + {0: 0, 1: 0, 2: 1, 3: 1, 4: 2, 5: 3, 6: 3, 7: 4}[n % 8]
def text(fn, n, pad, full, lo, dom):
    """text of n characters that ends with pad padding characters"""
    def build(env):
        v = [None] * (n - pad) + [61] * pad
        return [env.input("text", n, dom=dom, vals=v), n]
    def spec(env, st, o):
        v = st.rv
        if type(v) is not int: o.eq("length", v, lo, 64); return
        if v < lo or (full and v != lo): o.fail("length", "is %d for %d characters with %d padding, instead of %d" % (v, n, pad, lo))
        else: o.ok()
    return Case("%s %d with %d padding" % (fn, n, pad), fn, build, spec, nopin=True)

def cases(thorough, mod):
    out = []
    N = set(range(0, 300 if not thorough else 3000)) | {1000, 1023, 1024, 1025, 4095, 4096, 4097}
    for k in (9, 10, 12, 14, 15, 16, 20, 24, 28, 31, 32, 33, 40): N |= {2 ** k + d for d in (-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6)}
    for n in sorted(N):
        out.append(exact("w_to_hex_length", n, 2 * n))
        out.append(exact("w_to_base64_length", n, (n + 2) // 3 * 4))
        out.append(exact("w_to_base64_urlsafe_length", n, (8 * n + 5) // 6))
        out.append(exact("w_to_base32_length", n, (n + 4) // 5 * 8))
        out.append(atleast("w_from_hex_length", [n], n // 2))
        out.append(exact("w_from_base64_urlsafe_length", n, dec64(n)) if n % 4 != 1 else atleast("w_from_base64_urlsafe_length", [n], dec64(n)))
        out.append(exact("fingera_from_base32_raw_length", n, dec32(n)) if n % 8 in (0, 2, 4, 5, 7) else atleast("fingera_from_base32_raw_length", [n], dec32(n) if n % 8 not in (1, 3, 6) else n // 8 * 5))
    for n in sorted(x for x in N if x < 6000 or x > 2 ** 16 - 9):
        out.append(atleast("w_to_base58_length", [n], max(need58(n), n)))
        out.append(atleast("w_from_base58_length", [n], n))
        out.append(atleast("w_from_base58_check_length", [n], n))
    for n in list(range(0, 140)) + [200, 255, 256, 1000, 5000]:
        for p in (0, 1, 2, 4, 8): out.append(atleast("w_to_base58_check_length", [n, p], max(need58(n + p + 4), n + p + 4)))
    for h in list(range(0, 90)) + [255, 256, 1 << 20]:
        for n in (0, 1, 33, 53, 65, 255, 256, 1 << 33): out.append(exact("w_bech32_encode_length", h, h + n + 7, n))
    out.append(atleast("w_key_string_max_length", [], need58(33 + 8 + 4)))
    out.append(atleast("w_exkey_string_max_length", [], need58(74 + 8 + 4)))
    b64 = list(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"); b32 = list(b"abcdefghijklmnopqrstuvwxyz234567")
    for n in list(range(0, 41)) + [64, 100, 255, 256, 257, 1000]:
        if n % 4 == 0 or thorough:
            for pad in range(0, min(n, 2) + 1):
                m = n - pad
                out.append(text("w_from_base64_length", n, pad, n % 4 == 0, dec64(m), b64))
        if n <= 64 or n in (256, 1000):
            for pad in range(0, min(n, 6) + 1):
                m = n - pad
                full = n % 8 == 0 and pad in (0, 1, 3, 4, 6)
                out.append(text("fingera_from_base32_length", n, pad, full, dec32(m) if full else m // 8 * 5, b32))
    return out
