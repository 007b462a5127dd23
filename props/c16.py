"""C16: parsing untrusted key and address strings is memory-safe."""
import terms as t
import libc
from terms import T
from interp import P
from check import Case
from spec import *
from strs import chain, offsets
from c04 import const_of
import c09, c10, c12, c13
from c09 import DIG, ILL, WS
LEVEL = "other"
EXPLAIN = ("the five string parsers are interpreted with every object of exactly the size the caller announces (text without terminator, key records, address buffer, prefix strings), so that each load, "
           "store, block copy, comparison and release carries a bounds, initialisation and liveness obligation.  The Base58Check step is taken in two ways: as the real decoder, for free short texts, for the "
           "largest value of each length and for free, illegal, blank and terminated tails; and as any decoder that obeys its buffer contract (every payload size that fits, contents free, the rest of the "
           "buffer left uninitialised, or failure after writing any part).  Bech32 strings come from the partitions of C12 and C13 and as separator/length grids")
ASSUME = ["allocation succeeds (C34 takes the other outcome)", "text lengths are enumerated: all to 300 in the thorough tier, selected ones otherwise; 1000 (addresses) and 65536 (keys) at most"]
B = range(256)

def anydec(ks, fails=(), first=None):
    """any decoder within its contract: payload k leaves k+4 bytes, a failure leaves any number of bytes"""
    def f(I, st, av, ins):
        n = libc.conc(I, st, av, 1); out = []
        if n: I.check(st, av[0], n, False)
        for k, ok in [(k, 1) for k in ks if k] + [(m, 0) for m in fails]:
            m = k + 4 if ok else k
            if m > n: continue
            for hd in (first or [()]) if ok else [()]:
                s = st.clone(); w = [t.sym("dec[%d]" % i) for i in range(m)]
                for i, c in enumerate(hd[:m]): w[i] = c
                if m: I.check(s, av[2], m, True); I.store_cells(s, s.wobj(av[2].o), av[2].off, w)
                out.append((s, k if ok else 0))
        return out
    return f
PARSERS = (("fingera_btc_key_from_string", "secret"), ("fingera_exkey_from_string", "xprv"), ("fingera_expubkey_from_string", "xpub"))
_sz = {}
def sizes(mod):
    if not _sz: _sz.update(fingera_exkey_from_string=const_of(mod, "z_exkey"), fingera_expubkey_from_string=const_of(mod, "z_expub"))
    offsets(mod); c13.kinds(mod)
def outs(env, fn):
    if fn == "fingera_btc_key_from_string": return [env.inout("key", 32), env.inout("flag", 4)]
    return [env.inout("rec", _sz[fn])]
def ok(env, st, o): o.ok()
def parse(fn, field, n, pre, ks, fails, spec):
    def build(env): return [env.input("text", n) if n <= 400 else big(env, n), n] + outs(env, fn) + [chain(env, **{field: pre})]
    p = len(pre)
    heads = [tuple(pre)] + [tuple(pre[:j]) + (t.sym("dec[%d]" % j, 8, [c for c in B if c != pre[j]]),) for j in range(p)]
    return Case("%s of %d characters, prefix %s, any decoder" % (fn, n, pre.hex()), fn, build, spec, ends=("ret",), models={"fingera_from_base58_check": anydec(ks, fails, heads)}, nopin=True, cost=len(ks) * len(heads))
def big(env, n, c=50):
    env.st.new_obj("text", n, "input", lambda i: c, True); return P(t.PHASE[0] + "text", 0)
def real(fn, field, label, vals, pre, spec):
    n = len(vals)
    def build(env): return [c10.buf_in(env, vals, "text"), n] + outs(env, fn) + [chain(env, **{field: pre})]
    return Case("%s, %s, prefix %s" % (fn, label, pre.hex()), fn, build, spec, ends=("ret", "assert"), must_return=False, models=HASH_MODELS, cost=n)
def addr(label, vals, spec, hrp=b"bc", room=None, models=HASH_MODELS, pub=b"\0", scr=b"\5", **kw):
    n = len(vals) if type(vals) is list else vals; r = n if room is None else room
    def build(env):
        x = c10.buf_in(env, vals, "text") if type(vals) is list else big(env, n)
        return [x, n, env.output("out", r), c13.outsize(env, r), chain(env, hrp=hrp, pubkey=pub, script=scr)]
    def within(env, st, o): spec(env, st, o); c13.within(o, st, r)
    return Case("address_decode %s, network %s, room %d" % (label, hrp.decode(), r), "fingera_btc_address_decode", build, within, ends=("ret", "assert"), must_return=False, models=models, cost=n, **kw)
def respec(c, spec):
    """same call, only the automatic obligations and `spec`"""
    return Case(c.label, c.fn, c.build, spec, **c.kw)
def b32(label, n, vals, room, spec):
    def build(env):
        z = c13.outsize(env, room)
        return [c10.buf_in(env, vals, "text"), n, env.output("hrpbuf", room), z, env.output("b32", max(n - 7, 0))]
    return Case("bech32_decode %s, prefix room %d" % (label, room), "fingera_bech32_decode", build, spec, ends=("ret",), cost=n)

def parts(thorough, mod, spec):
    sizes(mod); out = []; X = out.append
    S = lambda v: v if type(v) is int else v
    # 1. any decoder
    for fn, field in PARSERS:
        for pre in (b"", b"\x80", b"\x80\x81", b"\1\2\3\4", b"\1\2\3\4\5\6\7\x08"):
            p = len(pre)
            for n in sorted(set([0, 1, 3, 4, 5, 6, 37, 38, 39, 50, 51, 52, 53, 74, 78, 79, 82, 111, 112] + list(range(120, 136)) + [173, 176, 200, 256, 300, 1000, 4096, 65536]) | (set(range(0, 301)) if thorough else set())):
                ks = sorted({0, 1, 2, 31, 32, 33, 34, 35, 41, 42, 73, 74, 75, 82, 85, 124, 128} | {p + i for i in range(0, 80)} | {max(p - i, 0) for i in range(8)} | {n - 4, n - 5})
                if not thorough and n not in (52, 111, 128, 129): ks = sorted({0, 1, n - 4, n - 5} | {max(p - 1, 0), p, p + 1} | {p + i for i in (1, 31, 32, 33, 34, 35, 41, 42, 73, 74, 75)})
                X(parse(fn, field, n, pre, [k for k in ks if 0 < k <= n - 4], sorted({m for m in (0, 1, 3, 4, p, p + 32, p + 33, p + 78, n - 1, n) if 0 <= m <= min(n, 1000)}), spec))
    # 2. the real decoder
    for fn, field in PARSERS:
        pre = dict(secret=b"\x80", xprv=b"\4\x88\xad\xe4", xpub=b"\4\x88\xb2\x1e")[field]
        for n in (0, 1, 2): X(real(fn, field, "%d free characters" % n, [B] * n, pre, spec))
        for n in (3, 4, 5, 6): X(real(fn, field, "%d free digits" % n, [DIG] * n, pre, spec))
        for n in list(range(1, 60, 5)) + [111, 112] + list(range(124, 134)) + list(range(170, 178)) + [200, 256, 300]:
            X(real(fn, field, "largest of %d" % n, [122] * n, pre, spec))
            if n % 2 == 0: X(real(fn, field, "ones %d" % n, [49] * n, pre, spec)); X(real(fn, field, "spaces %d" % n, [32] * n, pre, spec))
        for n in (50, 51, 109, 110, 127, 128, 129, 173, 174, 180):
            for nm, tail in (("2 digits", [DIG, DIG]), ("illegal", [ILL]), ("digit illegal", [DIG, ILL]), ("space", [WS]), ("space digit", [WS, DIG]), ("NUL", [[0]]), ("anything", [B])):
                X(real(fn, field, "%d digits, then %s" % (n, nm), [122] * n + tail, pre, spec))
    # 3. addresses: any decoder, then Bech32 on a text without separator
    for pub, scr in ((b"\0", b"\5"), (b"\1\2\3\4\5\6\7\x80", b"\1\2\3\4\5\6\7\x81"), (b"\x05", b"\6\7\x08"), (b"", b""), (b"", b"\5")):
        hd = [tuple(pub), tuple(scr), tuple(pub[:1]) + (t.sym("dec[%d]" % 1),) if pub else (), (t.sym("dec[0]", 8, [c for c in B if c not in pub[:1] + scr[:1]]),)]
        for n in (0, 1, 4, 5, 6, 8, 11, 12, 13, 34, 35, 44, 100, 127, 128, 129, 130, 200, 1000) + ((4096,) if thorough else ()):
            ks = sorted({k for k in (1, 20 + len(pub), n - 4) if n >= 200} if n >= 200 else {k for k in (1, 2, len(pub) - 1, len(pub), len(pub) + 1, len(scr), 20, 20 + len(pub), 21 + len(scr), 40, n - 5, n - 4, n // 2) if 0 < k <= n - 4})
            for room in sorted({n, 0, max(n - 1, 0), n // 2, n + 30, 20, 32}):
                X(addr("%d characters, prefixes %s %s, any decoder" % (n, pub.hex(), scr.hex()), n, spec, room=room, pub=pub, scr=scr, models={"fingera_from_base58_check": anydec(ks, sorted({m for m in ((0, n) if n >= 200 else (0, 1, 3, n // 2, n)) if m <= n}), hd)}, nopin=True))
    # 4. addresses, real decoders
    for n in (0, 1, 2): X(addr("%d free characters" % n, [B] * n, spec)); X(addr("%d free characters" % n, [B] * n, spec, room=n + 40))
    for n in (3, 5, 7): X(addr("%d free digits" % n, [DIG] * n, spec))
    for n in (8, 20, 33, 34, 35, 44, 60, 90, 91, 120, 127, 128, 129, 130, 176):
        for nm, v in (("largest", [122] * n), ("ones", [49] * n), ("spaces", [32] * n), ("2 free digits at the end", [122] * (n - 2) + [DIG, DIG]), ("illegal at the end", [122] * (n - 1) + [ILL]), ("anything at the end", [122] * (n - 1) + [B])):
            for room in (n, n - 1, 0): X(addr("%d %s" % (n, nm), v, spec, room=room))
    # 5. separator and length grids: all lower-case, checksum wrong or right by chance
    for n in sorted(set(range(0, 30)) | {42, 62, 89, 90, 91, 92, 127, 128, 129, 200, 300, 1000}):
        for sep in sorted({s for s in (0, 1, 2, 3, 4, 15, 16, 17, 18, 82, 83, 84, n - 8, n - 7, n - 6, n - 5, n - 2, n - 1, n // 2) if 0 <= s < n}):
            v = [113] * n; v[sep] = 49
            if n > 9 and sep < n - 7: v[sep + 1] = [113, 112]; v[n - 1] = list(range(97, 123))
            X(addr("%d characters, separator at %d" % (n, sep), v, spec, hrp=[b"bc", b"q" * 16, b"q", b"", b"q" * 17][(n + sep) % 5], models={"fingera_from_base58_check": anydec((), (0, min(n, 40)))}, nopin=True))
            for room in (16, 0, sep, max(sep - 1, 0), 90): X(b32("%d characters, separator at %d" % (n, sep), n, v, room, spec))
    for n in (0, 1, 2): 
        for room in (0, 1, 16): X(b32("%d free characters" % n, n, [B] * n, room, spec))
    # 6. the partitions of C12 and C13
    for c in c12.cases(False, mod):
        if c.fn == "fingera_bech32_decode": X(respec(c, spec))
    for c in c13.cases(False, mod):
        if c.fn == "fingera_btc_address_decode": X(respec(c, spec))
    for net, hrp in ((b"bc", b"bc" + b"q" * 14), (b"bc", b"bc" + b"q" * 15), (b"q" * 17, b"q" * 17), (b"q" * 20, b"q" * 20), (b"q" * 16, b"q" * 16), (b"q" * 30, b"q" * 40), (b"q" * 16, b"q" * 17), (b"q" * 17, b"q" * 16), (b"q" * 83, b"q" * 75)):
        for m in (0, 1, 3, 4, 32):
            if len(hrp) + m + 8 <= 90:
                for room in (0, 20): X(respec(c13.bech(mod, "network %s, string prefix of %d, %d program characters" % (net.decode(), len(hrp), m), net, hrp, 0, range(32), m, None, room, c13.BAD), spec))
    return out
def cases(thorough, mod): return parts(thorough, mod, ok)
