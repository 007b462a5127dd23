"""Shared set-up of the key-string and address properties: chain parameters with chosen prefixes, and the
Base58Check codec as an opaque operation (C09-C11 and C31 decide the codec itself)."""
import terms as t
import libc
from interp import P, Limit
from check import announced
from c04 import const_of, layout, FIELDS
from spec import *

NAMES = ["pubkey", "script", "secret", "xpub", "xprv", "hrp"]
MAIN = dict(pubkey=b"\x00", script=b"\x05", secret=b"\x80", xpub=bytes.fromhex("0488b21e"), xprv=bytes.fromhex("0488ade4"), hrp=b"bc")
_off = {}
def offsets(mod):
    if not _off:
        for n in NAMES: _off[n] = const_of(mod, "o_cp_" + n); _off[n + "_size"] = const_of(mod, "o_cp_%s_size" % n)
        _off["z"] = const_of(mod, "z_chain")
    return _off
def chain(env, **kw):
    """a chain_parameters object; every prefix sits in an object of exactly its size.  A value may be bytes or a list of terms"""
    off = _off; st = env.st; o = st.new_obj("chain", off["z"], "input", None, True)
    for n in NAMES:
        v = list(kw.get(n, MAIN[n])); q = st.new_obj("chain." + n, len(v), "input", None, True)
        for i, c in enumerate(v): q.cells[i] = c
        for i in range(8): o.cells[off[n] + i] = ("P", P(q.id, 0), i)
        for i in range(4): o.cells[off[n + "_size"] + i] = (len(v) >> (8 * i)) & 255
    return P(o.id, 0)
def payload(k): return [t.sym("dec[%d]" % i) for i in range(k)]
def from58(ks, cells=None, clash=True):
    """fingera_from_base58_check: succeeds with any of the payload sizes (contents free unless given), or fails.
    The buffer also receives the checksum; on failure it may hold anything."""
    def f(I, st, av, ins):
        n = libc.conc(I, st, av, 1); out = []
        if type(av[0]) is P and n: I.check(st, av[0], n, False)
        for k in ks:
            if k and k + 4 > n: continue
            if k and cells is not None: alts = cells(k)
            else: alts = [payload(k)]
            for c in alts:
                s = st.clone()
                w = list(c) + [t.sym("chk[%d]" % i) for i in range(4)] if k else [t.sym("junk[%d]" % i) for i in range(min(n, 40))]
                if w: I.check(s, av[2], len(w), True); I.store_cells(s, s.wobj(av[2].o), av[2].off, w)
                s.log.append(("from58", av[0], n, k, tuple(c) if k else ())); out.append((s, k))
        return out
    return f
def classes(pre, k, extra=()):
    """payload classes: right prefix / first wrong prefix byte at j, times the values a distinguished byte may have"""
    p = len(pre); base = payload(k); out = []
    heads = [list(pre[:k])] + [list(pre[:j]) + [t.sym("dec[%d]" % j, 8, [c for c in range(256) if c != pre[j]])] + base[j + 1:p] for j in range(min(p, k))]
    for h in heads:
        alts = [h + base[len(h):]]
        for size, pos, val in extra:
            if k == size: alts = [a[:pos] + [v] + a[pos + 1:] for a in alts for v in (val, t.sym("dec[%d]" % pos, 8, [c for c in range(256) if c != val]))]
        out += alts
    return out
def to58(lens=None):
    """fingera_to_base58_check: logs what it is asked to encode and writes a string of some length"""
    def f(I, st, av, ins):
        k = libc.conc(I, st, av, 1); p = libc.conc(I, st, av, 3)
        a = []
        for q, n in ((av[2], p), (av[0], k)):
            if n:
                o = I.check(st, q, n, False); c = I.load_cells(st, o, q.off, n)
                if c is None: I.event(st, "uninit", "encodes uninitialised bytes of %s" % o.name)
                a += c
        out = []; top = (k + p + 4) * 138 // 100 + 2
        for r in (1, top):
            s = st.clone()
            I.check(s, av[4], r, True); I.store_cells(s, s.wobj(av[4].o), av[4].off, [t.sym("enc[%d]" % i) for i in range(r)])
            s.log.append(("to58", tuple(a), r)); out.append((s, r))
        return out
    return f
def calls(st, what): return [e for e in st.log if e[0] == what]
def decoded(st, o, n, need, ok):
    """the one decoding on this path: its (size, payload), or None when the verdict is settled without it.
    Rejecting unseen is right only for texts too short to carry `need` payload bytes"""
    e = calls(st, "from58")
    if not e:
        if n * 0.733 + 1 < need + 4: ok(0)
        else: o.fail("decoding", "rejects or accepts a text of %d characters without decoding it" % n, st.trace)
        return None
    if len(e) != 1 or e[0][1] != P("text", 0) or e[0][2] != n:
        o.fail("decoding", "does not decode exactly the given text once", st.trace); return None
    return e[0][3], list(e[0][4])
def match(cells, prefix):
    r = 1
    for a, b in zip(cells, prefix): r = t.band(r, t.eq(a, b, 8), 1)
    return r
def settle(env, st, c):
    """condition as 0/1 on this path, or the condition itself"""
    if type(c) is int: return c
    d = env.I.decide(st, c)
    return c if d is None else d
