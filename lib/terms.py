"""The symbolic value domain of the abstract interpreter: hash-consed value-graph
terms (global value numbering) over bit vectors.

A value is a Python int (constant) or a T (interned term).  Constructors normalise:
bit-slices and concatenations, bitwise operations as algebraic normal form over
aligned slices, linear arithmetic with sorted coefficients, and every function of a
single input byte as its value table over that byte's domain.  Each term carries an
unsigned interval [lo,hi] (non-relational domain) and taint bits."""
import hashlib, random
import numpy as np

class T(object):
    __slots__ = ("op", "a", "w", "lo", "hi", "id", "sym", "tab", "taint", "pm", "_x")
    def __repr__(s): return show(s, 3)

M = [(1 << i) - 1 for i in range(600)]
_tab = {}
_cnt = [0]
TAINT_CLEAR_UF = set()

def reset():
    _tab.clear(); _aff.clear(); _bases.clear(); _cnt[0] = 0

def _mk(op, a, w, lo, hi, sym=None, taint=0):
    k = (op, a, w)
    t = _tab.get(k)
    if t is not None: return t
    t = T(); t.op = op; t.a = a; t.w = w; t.lo = lo; t.hi = hi; t.sym = sym; t.tab = None; t.taint = taint; t.pm = None; t._x = None
    _cnt[0] += 1; t.id = _cnt[0]
    _tab[k] = t
    return t

def sym(name, w=8, dom=None, lo=None, hi=None, taint=0):
    """input symbol; an 8-bit symbol has a finite domain of values"""
    if w == 8:
        dom = tuple(range(256)) if dom is None else tuple(sorted(set(dom)))
        if len(dom) == 1: return dom[0]
        t = _mk("sym", (name, dom), 8, dom[0], dom[-1], None, taint)
        t.sym = t; t.tab = dom; t.taint |= taint
        return t
    t = _mk("sym", (name, lo, hi), w, 0 if lo is None else lo, M[w] if hi is None else hi, None, taint); t.taint |= taint
    return t

PHASE = [""]           # prefix of the names of inputs and objects while an earlier call of a sequence is analysed
_fresh = [0]
def fresh(w, lo=0, hi=None, tag="f", taint=0):
    _fresh[0] += 1
    return _mk("sym", ("%s#%d" % (tag, _fresh[0]), lo, hi), w, lo, M[w] if hi is None else hi, None, taint) if w != 8 else \
        sym("%s#%d" % (tag, _fresh[0]), 8, range(lo, (255 if hi is None else hi) + 1), taint=taint)

def is_c(x): return type(x) is int
def tnt(x): return 0 if type(x) is int else x.taint
def lo_(x): return x if type(x) is int else x.lo
def hi_(x): return x if type(x) is int else x.hi

def pmask(x):
    """mask of bits that may be one"""
    if type(x) is int: return x
    if x.pm is None:
        if x.op == "cat":
            m = 0; o = 0
            for v, n in x.a:
                m |= pmask(v) << o; o += n
            x.pm = m
        elif x.tab is not None:
            m = 0
            for v in x.tab: m |= v
            x.pm = m
        else: x.pm = M[x.hi.bit_length()]
    return x.pm

# ----------------------------------------------------- single-byte functions
def symof(x, y=None):
    """common single-byte symbol of the operands (constants allowed), else None"""
    if type(x) is int: return None if y is None or type(y) is int else y.sym
    s = x.sym
    if s is None or y is None or type(y) is int: return s
    return s if y.sym is s else None

def table(x, s):
    if type(x) is int: return (x,) * len(s.tab)
    if x.tab is None:
        op = x.op
        if op == "ext":
            b = table(x.a[0], s); lo = x.a[1]; m = M[x.w]; x.tab = tuple((v >> lo) & m for v in b)
        elif op == "cat":
            acc = [0] * len(s.tab); o = 0
            for v, n in x.a:
                if type(v) is int:
                    if v:
                        c = v << o; acc = [p | c for p in acc]
                else: acc = [p | (q << o) for p, q in zip(acc, table(v, s))]
                o += n
            x.tab = tuple(acc)
        else: raise RuntimeError("table of " + op)
    return x.tab

def from_table(s, vals, w):
    """canonical term of the function sym -> vals (aligned with s.tab)"""
    v0 = vals[0]
    orr = 0; an = M[w]
    for v in vals: orr |= v; an &= v
    if orr == an: return orr
    vals = tuple(vals)
    k = ("ftab", (s, vals), w)
    r = _tab.get(k)
    if r is not None: return r
    # bit-slice recognition: is every varying bit a bit of the symbol?
    diff = orr & ~an
    cols = {}
    for j in range(8):
        c = 0
        for i, d in enumerate(s.tab): c |= ((d >> j) & 1) << i
        cols.setdefault(c, j)
    segs = []; ok = True
    for b in range(w):
        if not (diff >> b) & 1:
            segs.append(((an >> b) & 1, 1)); continue
        c = 0
        for i, v in enumerate(vals): c |= ((v >> b) & 1) << i
        # prefer the natural position for ambiguous columns
        j = cols.get(c)
        if j is None: ok = False; break
        segs.append((("b", j), 1))
    if ok:
        out = []
        for v, n in segs:
            out.append((_ext_sym(s, v[1], 1), 1) if type(v) is tuple else (v, n))
        r = _cat_raw(out, s)
    else:
        lowz = (diff & -diff).bit_length() - 1; hib = diff.bit_length(); n = hib - lowz
        core = tuple((v >> lowz) & M[n] for v in vals)
        t = _mk("tbl", (s, core), n, min(core), max(core), s, s.taint); t.tab = core
        if n == w: r = t
        else:
            sg = []
            if lowz: sg.append((an & M[lowz], lowz))
            sg.append((t, n))
            if hib < w: sg.append(((an >> hib) & M[w - hib], w - hib))
            sg = tuple(sg)
            r = _mk("cat", sg, w, min(vals), max(vals), s, s.taint); r.tab = vals
    _tab[k] = r
    return r

def _ext_sym(s, lo, n):
    if n == 8: return s
    r = _tab.get(("ext", (s, lo), n))
    if r is not None: return r
    vals = [(v >> lo) & M[n] for v in s.tab]
    if min(vals) == max(vals): return vals[0]
    t = _mk("ext", (s, lo), n, min(vals), max(vals), s, s.taint); t.tab = tuple(vals)
    return t

def _cat_raw(segs, s=None):
    """merge adjacent slices/constants, no table canonicalisation"""
    out = []
    for v, n in segs:
        if out:
            pv, pn = out[-1]
            if type(v) is int and type(pv) is int: out[-1] = (pv | (v << pn), pn + n); continue
            if type(v) is T and type(pv) is T:
                m = _join_slices(pv, pn, v, n)
                if m is not None: out[-1] = (m, pn + n); continue
        out.append((v, n))
    if len(out) == 1: return out[0][0]
    w = 0; lo = 0; hi = 0; tt = 0
    for v, n in out:
        lo |= lo_(v) << w; hi |= hi_(v) << w; w += n; tt |= tnt(v)
    t = _mk("cat", tuple(out), w, lo, hi, s, tt)
    return t

def _slice(x, n):
    if x.op == "ext": return x.a[0], x.a[1]
    return x, 0

def _join_slices(p, pn, v, n):
    """p (low, pn bits) followed by v (n bits): one slice if consecutive"""
    bp, lp = _slice(p, pn); bv, lv = _slice(v, n)
    if bp is bv and lv == lp + pn: return ext(bp, lp, pn + n)
    if p.op == "bw" or v.op == "bw":
        pm, pc = p.a if p.op == "bw" else (frozenset((frozenset((p,)),)), 0)
        vm, vc = v.a if v.op == "bw" else (frozenset((frozenset((v,)),)), 0)
        if len(pm) != len(vm): return None
        mp = {}
        vl = set()
        for mono in vm: vl |= mono
        for mono in pm:
            for leaf in mono:
                if leaf in mp: continue
                b, l = _slice(leaf, pn)
                if l + pn + n > b.w: return None
                nxt = ext(b, l + pn, n)
                if type(nxt) is int or nxt not in vl: return None
                big = ext(b, l, pn + n)
                if type(big) is int or big.op == "cat" or big.op == "bw": return None
                mp[leaf] = (nxt, big)
        tr = frozenset(frozenset(mp[x][0] for x in mono) for mono in pm)
        if tr != vm: return None
        return _bw(frozenset(frozenset(mp[x][1] for x in mono) for mono in pm), pc | (vc << pn), pn + n)
    return None

def segs(x, w):
    if type(x) is int: return [(x, w)]
    if x.op == "cat": return x.a
    return ((x, w),)

def cat(parts):
    """concatenate [(value,width)...] low to high"""
    fl = []
    for v, n in parts:
        if n == 0: continue
        if type(v) is int: fl.append((v, n))
        elif v.op == "cat": fl.extend(v.a)
        else: fl.append((v, n))
    if not fl: return 0
    s = None; single = True
    for v, n in fl:
        if type(v) is int: continue
        if v.sym is None or (s is not None and v.sym is not s): single = False; break
        s = v.sym
    if s is None and single:
        r = 0; o = 0
        for v, n in fl: r |= v << o; o += n
        return r
    if single:
        w = sum(n for v, n in fl)
        acc = [0] * len(s.tab); o = 0
        for v, n in fl:
            if type(v) is int:
                if v: c = v << o; acc = [p | c for p in acc]
            else: acc = [p | (q << o) for p, q in zip(acc, table(v, s))]
            o += n
        return from_table(s, acc, w)
    # adjacent pieces of the same byte: one table
    out = []
    for v, n in fl:
        if out and type(v) is T and v.sym is not None and type(out[-1][0]) is T and out[-1][0].sym is v.sym:
            pv, pn = out[-1]; j = None
            if pv.op in ("ext", "sym") and v.op in ("ext", "sym"):
                out.append((v, n)); continue
            tp = table(pv, v.sym); tv = table(v, v.sym)
            nv = from_table(v.sym, [a | (b << pn) for a, b in zip(tp, tv)], pn + n)
            out.pop()
            if type(nv) is T and nv.op == "cat": out.extend(nv.a)
            else: out.append((nv, pn + n))
            continue
        out.append((v, n))
    r = _cat_raw(out)
    if type(r) is T and r.op == "cat":
        # a wide value known to fit in its low slice
        a = r.a
        if len(a) == 2 and type(a[1][0]) is int and a[0][0].op == "ext":
            b, l = a[0][0].a; n = a[0][1]
            if l == 0 and b.w == r.w and b.hi >> n == a[1][0] == b.lo >> n: return b
    return r

def ext(x, lo, n):
    """bits [lo, lo+n) of x"""
    if type(x) is int: return (x >> lo) & M[n]
    if lo == 0 and n == x.w: return x
    op = x.op
    if x.hi >> lo == 0: return 0
    if op == "sym":
        if x.tab is not None: return _ext_sym(x, lo, n)
    elif op == "ext":
        return ext(x.a[0], lo + x.a[1], n)
    elif op == "cat":
        if x.sym is not None:
            return from_table(x.sym, [(v >> lo) & M[n] for v in table(x, x.sym)], n)
        out = []; o = 0; e = lo + n
        for v, m in x.a:
            a = max(lo, o); b = min(e, o + m)
            if a < b: out.append((ext(v, a - o, b - a), b - a))
            o += m
            if o >= e: break
        return cat(out)
    elif op == "tbl":
        return from_table(x.sym, [(v >> lo) & M[n] for v in x.tab], n)
    elif op == "bw":
        mp = {}
        mon = {}
        for mono in x.a[0]:
            r = []
            for leaf in mono:
                y = mp.get(leaf)
                if y is None: y = mp[leaf] = ext(leaf, lo, n)
                r.append(y)
            r = [y for y in r if not (type(y) is int and y == M[n])]
            if any(type(y) is int and y == 0 for y in r): continue
            if any(type(y) is int for y in r):
                # partially constant leaf slice: rebuild generically
                return _bw_generic(x, lo, n)
            r = frozenset(r)
            mon[r] = mon.get(r, 0) ^ 1
        c = (x.a[1] >> lo) & M[n]
        ms = set(k for k, v in mon.items() if v)
        if frozenset() in ms: ms.discard(frozenset()); c ^= M[n]
        if any(any(l.op == "cat" or l.op == "bw" or (n == 1 and l.sym is not None and len(l.sym.tab) != 256) for l in mono) for mono in ms): return _bw_generic(x, lo, n)
        return _bw(frozenset(ms), c, n)
    elif op == "ite":
        return ite(x.a[0], ext(x.a[1], lo, n), ext(x.a[2], lo, n), n)
    l = 0; h = M[n]
    if x.hi >> (lo + n) == x.lo >> (lo + n):
        l = (x.lo >> lo) & M[n]; h = (x.hi >> lo) & M[n]
        if l == h: return l
    t = _mk("ext", (x, lo), n, l, h, None, x.taint)
    return t

def _bw_generic(x, lo, n):
    acc = (x.a[1] >> lo) & M[n]
    for mono in x.a[0]:
        p = M[n]
        for leaf in mono: p = band(p, ext(leaf, lo, n), n)
        acc = bxor(acc, p, n)
    return acc

def trunc(x, n):
    if type(x) is int: return x & M[n]
    if n == x.w: return x
    if n in (32, 16, 8) and x.op == "add" and (n == 32 or x.w == 32 and n == 16) and x.hi > M[n]:
        acc = x.a[1] & M[n]
        parts = {}
        for c, at in x.a[0]:
            acc = add(acc, mul(trunc(at, n), c & M[n], n), n)
        return acc
    return ext(x, 0, n)

def zext(x, w0, w):
    if type(x) is int: return x
    return cat([(x, w0), (0, w - w0)])

def sext(x, w0, w):
    if type(x) is int: return (x | (M[w] ^ M[w0])) if x >> (w0 - 1) else x
    if x.hi < 1 << (w0 - 1): return zext(x, w0, w)
    if x.sym is not None:
        return from_table(x.sym, [(v | (M[w] ^ M[w0])) if v >> (w0 - 1) else v for v in table(x, x.sym)], w)
    s = ext(x, w0 - 1, 1)
    if type(s) is int: return cat([(x, w0), (M[w - w0] if s else 0, w - w0)])
    t = _mk("sx", (x,), w, 0, M[w], None, x.taint)
    return t

# ----------------------------------------------------- bitwise
def _bw(monos, c, n):
    if not monos: return c
    if len(monos) == 1 and c == 0:
        m = next(iter(monos))
        if len(m) == 1: return next(iter(m))
    if len(monos) < (9 if n > 1 else 80):
        # a function of one byte only is kept as its table
        s = None; one = True
        for mono in monos:
            for l in mono:
                if l.sym is None or (s is not None and l.sym is not s): one = False; break
                s = l.sym
            if not one: break
        if one:
            vals = [c] * len(s.tab)
            for mono in monos:
                p = [M[n]] * len(s.tab)
                for l in mono: p = [a & b for a, b in zip(p, table(l, s))]
                vals = [a ^ b for a, b in zip(vals, p)]
            return from_table(s, vals, n)
    tt = 0
    for mono in monos:
        for l in mono: tt |= l.taint
    lo = 0; hi = M[n]
    return _mk("bw", (monos, c), n, lo, hi, None, tt)

def _poly(x, n):
    if type(x) is int: return frozenset(), x
    if x.op == "bw": return x.a
    if x.op == "tbl" and len(x.sym.tab) == 256:
        r = _aff.get(x)
        if r is None: r = _aff[x] = _affine(x, n)
        if r: return r
    elif n == 1 and x.sym is not None and x.op in ("tbl", "ext") and len(x.sym.tab) != 256:
        r = _aff.get(x)
        if r is None: r = _aff[x] = _basis(x)
        return r
    return frozenset([frozenset([x])]), 0

_aff = {}; _bases = {}
def _basis(x):
    """one-bit function of a symbol with a restricted domain, over a growing basis of such functions (the constant split off)"""
    s = x.sym; f = 0
    for i, v in enumerate(table(x, s)): f |= v << i
    c = f & 1
    if c: f ^= (1 << len(s.tab)) - 1
    B = _bases.setdefault(s, [])          # (pivot, reduced vector, combination of atoms)
    g = f; used = 0
    for piv, vec, comb in B:
        if (g >> piv) & 1: g ^= vec; used ^= comb
    if g:
        k = len(B)
        atom = from_table(s, [(f >> i) & 1 for i in range(len(s.tab))], 1)
        B.append((g.bit_length() - 1, g, used | 1 << k)); _aff[(s, k)] = atom
        return frozenset([frozenset([atom])]), c
    out = []; k = 0
    while used:
        if used & 1: out.append(frozenset([_aff[(s, k)]]))
        used >>= 1; k += 1
    return frozenset(out), c
def _affine(x, n):
    """single-byte table as a sum of slices of the byte, when it is one"""
    s = x.sym; tb = x.tab; c = tb[0]; S = None
    if len(s.tab) != 256: return False
    col = [tb[1 << j] ^ c for j in range(8)]
    for j in range(8):
        for b in range(n):
            if (col[j] >> b) & 1:
                if S is None: S = set()
                S.add(j - b)
    if not S or len(S) > 8 or any(k < 0 or k + n > 8 for k in S): return False
    for j in range(8):
        e = 0
        for b in range(n):
            if (j - b) in S: e |= 1 << b
        if e != col[j]: return False
    v = [c] * 256
    for i in range(1, 256):
        low = i & -i; v[i] = v[i ^ low] ^ col[low.bit_length() - 1]
    if tuple(v) != tuple(tb): return False
    return frozenset(frozenset((_ext_sym(s, k, n),)) for k in S), c

CAP = 24; LINCAP = 700
def _opaque(op, x, y, n):
    a = []
    for z in (x, y):
        if type(z) is T and z.op == op: a.extend(z.a)
        else: a.append(z)
    a.sort(key=lambda z: (0, z) if type(z) is int else (1, z.id))
    tt = 0
    for z in a: tt |= tnt(z)
    return _mk(op, tuple(a), n, 0, M[n], None, tt)

def _xor1(x, y, n):
    px, cx = _poly(x, n); py, cy = _poly(y, n)
    m = px ^ py
    if len(m) > CAP and type(x) is T and type(y) is T and (len(m) > LINCAP or any(len(q) > 1 for q in m)):
        return _opaque("xor", x, y, n)
    return _bw(m, cx ^ cy, n)

def _and1(x, y, n):
    px, cx = _poly(x, n); py, cy = _poly(y, n); full = M[n]
    if (cx not in (0, full)) or (cy not in (0, full)):
        # split at the runs of the constants
        out = []; i = 0
        while i < n:
            j = i + 1; kx = (cx >> i) & 1; ky = (cy >> i) & 1
            while j < n and (cx >> j) & 1 == kx and (cy >> j) & 1 == ky: j += 1
            out.append((band(ext(x, i, j - i), ext(y, i, j - i), j - i), j - i)); i = j
        return cat(out)
    if (len(px) + 1) * (len(py) + 1) > 64: return _opaque("and", x, y, n)
    acc = {}
    ax = list(px) + ([frozenset()] if cx else []); ay = list(py) + ([frozenset()] if cy else [])
    for a in ax:
        for b in ay:
            k = a | b
            acc[k] = acc.get(k, 0) ^ 1
    ms = set(k for k, v in acc.items() if v); c = 0
    if frozenset() in ms: ms.discard(frozenset()); c = full
    if len(ms) > CAP: return _opaque("and", x, y, n)
    return _bw(frozenset(ms), c, n)

def _bitop(x, y, w, f, f1):
    s = symof(x, y)
    if s is not None:
        return from_table(s, [f(a, b) for a, b in zip(table(x, s), table(y, s))], w)
    sx = segs(x, w); sy = segs(y, w)
    if len(sx) == 1 and len(sy) == 1: return f1(sx[0][0], sy[0][0], w)
    out = []; i = j = 0; ox = oy = 0; pos = 0
    while pos < w:
        vx, nx = sx[i]; vy, ny = sy[j]
        k = min(nx - ox, ny - oy)
        out.append((f1(ext(vx, ox, k) if k != nx else vx, ext(vy, oy, k) if k != ny else vy, k), k))
        ox += k; oy += k; pos += k
        if ox == nx: i += 1; ox = 0
        if oy == ny: j += 1; oy = 0
    return cat(out)

def _pc_and(x, y, n):
    if type(x) is int:
        if type(y) is int: return x & y
        x, y = y, x
    if type(y) is int:
        if y == 0: return 0
        if y == M[n]: return x
        out = []; i = 0
        while i < n:
            j = i + 1; b = (y >> i) & 1
            while j < n and (y >> j) & 1 == b: j += 1
            out.append((ext(x, i, j - i) if b else 0, j - i)); i = j
        return cat(out)
    if x is y: return x
    s = symof(x, y)
    if s is not None: return from_table(s, [a & b for a, b in zip(table(x, s), table(y, s))], n)
    return _and1(x, y, n)

def _pc_xor(x, y, n):
    if type(x) is int:
        if type(y) is int: return x ^ y
        x, y = y, x
    if type(y) is int:
        if y == 0: return x
        if x.sym is not None: return from_table(x.sym, [a ^ y for a in table(x, x.sym)], n)
        return _xor1(x, y, n)
    if x is y: return 0
    s = symof(x, y)
    if s is not None: return from_table(s, [a ^ b for a, b in zip(table(x, s), table(y, s))], n)
    return _xor1(x, y, n)

def _pc_or(x, y, n):
    if type(x) is int:
        if type(y) is int: return x | y
        x, y = y, x
    if type(y) is int:
        if y == 0: return x
        if y == M[n]: return y
        out = []; i = 0
        while i < n:
            j = i + 1; b = (y >> i) & 1
            while j < n and (y >> j) & 1 == b: j += 1
            out.append((M[j - i] if b else ext(x, i, j - i), j - i)); i = j
        return cat(out)
    if x is y: return x
    s = symof(x, y)
    if s is not None: return from_table(s, [a | b for a, b in zip(table(x, s), table(y, s))], n)
    # x|y = x^y^(x&y)
    if len(_poly(x, n)[0]) + len(_poly(y, n)[0]) > 10: return _opaque("or", x, y, n)
    return bxor(bxor(x, y, n), band(x, y, n), n)

def band(x, y, w):
    if type(x) is int and type(y) is int: return x & y
    return _bitop(x, y, w, lambda a, b: a & b, _pc_and)
def bor(x, y, w):
    if type(x) is int and type(y) is int: return x | y
    return _bitop(x, y, w, lambda a, b: a | b, _pc_or)
def bxor(x, y, w):
    if type(x) is int and type(y) is int: return x ^ y
    return _bitop(x, y, w, lambda a, b: a ^ b, _pc_xor)
def bnot(x, w): return bxor(x, M[w], w)

# ----------------------------------------------------- shifts
def shl(x, k, w):
    if type(k) is int:
        if k >= w: return 0
        if k == 0: return x
        if type(x) is int: return (x << k) & M[w]
        return cat([(0, k), (ext(x, 0, w - k), w - k)])
    s = symof(x, k)
    if s is not None: return from_table(s, [(a << b) & M[w] if b < w else 0 for a, b in zip(table(x, s), table(k, s))], w)
    return _mk("shl", (x, k), w, 0, M[w], None, tnt(x) | k.taint)
def lshr(x, k, w):
    if type(k) is int:
        if k >= w: return 0
        if k == 0: return x
        if type(x) is int: return x >> k
        return cat([(ext(x, k, w - k), w - k), (0, k)])
    s = symof(x, k)
    if s is not None: return from_table(s, [a >> b if b < w else 0 for a, b in zip(table(x, s), table(k, s))], w)
    return _mk("lshr", (x, k), w, 0, hi_(x), None, tnt(x) | k.taint)
def ashr(x, k, w):
    if type(x) is int and type(k) is int:
        v = x - (1 << w) if x >> (w - 1) else x
        return (v >> min(k, w - 1)) & M[w]
    if hi_(x) < 1 << (w - 1): return lshr(x, k, w)
    s = symof(x, k)
    if s is not None: return from_table(s, [ashr(a, b, w) for a, b in zip(table(x, s), table(k, s))], w)
    if type(k) is int:
        if k == 0: return x
        return sext(ext(x, k, w - k), w - k, w)
    return _mk("ashr", (x, k), w, 0, M[w], None, tnt(x) | tnt(k))

# ----------------------------------------------------- arithmetic
def _lin(x, w):
    if type(x) is int: return {}, x
    if x.op == "add" and x.w == w:
        if x._x is None: x._x = {t: c for c, t in x.a[0]}
        return x._x, x.a[1]
    return {x: 1}, 0

def _signed(c, w): return c - (1 << w) if c >> (w - 1) else c

def _mklin(d, c, w):
    d = {t: k & M[w] for t, k in d.items() if k & M[w]}
    c &= M[w]
    if not d: return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
        if k & (k - 1) == 0: return shl(t, k.bit_length() - 1, w)
    # single-byte symbol in all atoms
    it = iter(d); s = next(it).sym
    if s is not None and all(t.sym is s for t in d):
        acc = [c] * len(s.tab)
        for t, k in d.items(): acc = [p + k * q for p, q in zip(acc, table(t, s))]
        return from_table(s, [p & M[w] for p in acc], w)
    # disjoint bits -> or
    if all(k == 1 for k in d.values()) and len(d) + (1 if c else 0) == 2:
        ts = list(d) + ([c] if c else [])
        if pmask(ts[0]) & pmask(ts[1]) == 0: return bor(ts[0], ts[1], w)
    lo = hi = _signed(c, w) if len(d) else c
    tt = 0
    for t, k in d.items():
        k = _signed(k, w); tt |= t.taint
        if k >= 0: lo += k * t.lo; hi += k * t.hi
        else: lo += k * t.hi; hi += k * t.lo
    if lo < 0 and hi < 0: lo += 1 << w; hi += 1 << w
    if lo < 0 or hi > M[w]:
        # maybe the constant is meant unsigned
        if lo >= (1 << w): lo -= 1 << w; hi -= 1 << w
        if lo < 0 or hi > M[w]: lo = 0; hi = M[w]
    if lo == hi: return lo
    items = tuple(sorted(((k, t) for t, k in d.items()), key=lambda p: p[1].id))
    return _mk("add", (items, c), w, lo, hi, None, tt)

def add(x, y, w):
    if type(x) is int:
        if type(y) is int: return (x + y) & M[w]
        if x == 0: return y
    elif type(y) is int and y == 0: return x
    dx, cx = _lin(x, w); dy, cy = _lin(y, w)
    if len(dx) < len(dy): dx, dy = dy, dx
    d = dict(dx)
    m = M[w]; z = False
    for t, k in dy.items():
        o = d.get(t)
        if o is None: d[t] = k
        else:
            k = (o + k) & m
            if k: d[t] = k
            else: del d[t]
    if len(d) > 6 and w >= 32:
        # long sums: interned on the set of their summands
        c = (cx + cy) & m
        g = None
        for t in d:
            if t.sym is not None:
                if g is None: g = {}
                g.setdefault(t.sym, []).append(t)
        if g:
            # one summand per input byte, zero at the first value of its domain
            for sy, ts in g.items():
                if len(ts) == 1 and d[ts[0]] == 1 and table(ts[0], sy)[0] == 0: continue
                acc = [0] * len(sy.tab)
                for t in ts:
                    k = d.pop(t); acc = [p + k * q for p, q in zip(acc, table(t, sy))]
                c = (c + acc[0]) & m; a0 = acc[0]
                n = from_table(sy, [(p - a0) & m for p in acc], w)
                if type(n) is T: d[n] = 1
        key = ("addset", frozenset(d.items()), c, w)
        r = _tab.get(key)
        if r is not None: return r
        lo = hi = 0
        for t, k in d.items():
            k = _signed(k, w)
            if k >= 0: lo += k * t.lo; hi += k * t.hi
            else: lo += k * t.hi; hi += k * t.lo
            if hi - lo > m: r = True; break
        if r:
            r = _mk("add", (tuple((k, t) for t, k in sorted(d.items(), key=_byid)), c), w, 0, m, None, tnt(x) | tnt(y)); r._x = d
        else: r = _mklin(d, c, w)
        _tab[key] = r
        return r
    return _mklin(d, cx + cy, w)
def _byid(p): return p[0].id

def neg(x, w): return mul(x, M[w], w)
def sub(x, y, w):
    if type(x) is int and type(y) is int: return (x - y) & M[w]
    if type(y) is T and type(x) is T:
        # x - x / k * k
        if y.op == "add" and len(y.a[0]) == 1 and y.a[1] == 0:
            k, q = y.a[0][0]
            if q.op == "udiv" and q.a[0] is x and type(q.a[1]) is int and q.a[1] == k: return urem(x, k, w)
        elif y.op == "cat" and type(y.a[0][0]) is int and y.a[0][0] == 0:
            n = y.a[0][1]
            if y is cat([(0, n), (ext(x, n, w - n), w - n)]): return band(x, M[n], w)
    return add(x, neg(y, w), w)

def mul(x, y, w):
    if type(x) is int:
        if type(y) is int: return (x * y) & M[w]
        x, y = y, x
    if type(y) is int:
        if y == 0: return 0
        if y == 1: return x
        if x.sym is not None: return from_table(x.sym, [(a * y) & M[w] for a in table(x, x.sym)], w)
        if y & (y - 1) == 0 and x.op != "add": return shl(x, y.bit_length() - 1, w)
        d, c = _lin(x, w)
        return _mklin({t: k * y for t, k in d.items()}, c * y, w)
    s = symof(x, y)
    if s is not None: return from_table(s, [(a * b) & M[w] for a, b in zip(table(x, s), table(y, s))], w)
    if x.id > y.id: x, y = y, x
    h = x.hi * y.hi
    return _mk("mul", (x, y), w, x.lo * y.lo if h <= M[w] else 0, min(h, M[w]), None, x.taint | y.taint)

def _sg(v, w): return v - (1 << w) if v >> (w - 1) else v
def _cdiv(a, b):
    q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def cudiv(a, b, w): return a // b if b else 0
def curem(a, b, w): return a % b if b else 0
def csdiv(a, b, w):
    return _cdiv(_sg(a, w), _sg(b, w)) & M[w] if b else 0
def csrem(a, b, w):
    if not b: return 0
    x = _sg(a, w); y = _sg(b, w); return (x - y * _cdiv(x, y)) & M[w]

def _divop(op, f, x, y, w):
    if type(x) is int and type(y) is int: return f(x, y, w)
    s = symof(x, y)
    if s is not None: return from_table(s, [f(a, b, w) for a, b in zip(table(x, s), table(y, s))], w)
    return None

def udiv(x, y, w):
    r = _divop("udiv", cudiv, x, y, w)
    if r is not None: return r
    if type(y) is int and y:
        if y & (y - 1) == 0: return lshr(x, y.bit_length() - 1, w)
        if x.hi < y: return 0
        d, c = _lin(x, w)
        return _mk("udiv", (x, y), w, x.lo // y, x.hi // y, None, x.taint)
    return _mk("udiv", (x, y), w, 0, hi_(x), None, tnt(x) | tnt(y))
def urem(x, y, w):
    r = _divop("urem", curem, x, y, w)
    if r is not None: return r
    if type(y) is int and y:
        if y & (y - 1) == 0: return band(x, y - 1, w)
        if x.hi < y: return x
        if x.lo // y == x.hi // y: return sub(x, x.lo // y * y, w)
        return _mk("urem", (x, y), w, 0, y - 1, None, x.taint)
    return _mk("urem", (x, y), w, 0, hi_(x), None, tnt(x) | tnt(y))
def sdiv(x, y, w):
    r = _divop("sdiv", csdiv, x, y, w)
    if r is not None: return r
    if hi_(x) < 1 << (w - 1) and type(y) is int and y < 1 << (w - 1): return udiv(x, y, w)
    return _mk("sdiv", (x, y), w, 0, M[w], None, tnt(x) | tnt(y))
def srem(x, y, w):
    r = _divop("srem", csrem, x, y, w)
    if r is not None: return r
    if hi_(x) < 1 << (w - 1) and type(y) is int and y < 1 << (w - 1): return urem(x, y, w)
    return _mk("srem", (x, y), w, 0, M[w], None, tnt(x) | tnt(y))

# ----------------------------------------------------- predicates (width 1)
def _restricted(x):
    """sum with wide slices of symbols whose domain is not a full byte"""
    if x.op != "bw" or x.w == 1: return False
    for m in x.a[0]:
        if len(m) > 1: return False
    for m in x.a[0]:
        for l in m:
            if l.sym is not None and len(l.sym.tab) != 256: return True
    return False
def _canon(x, w):
    """bit-wise normal form of such a sum (equal functions become identical terms)"""
    r = _aff.get(("canon", x))
    if r is not None: return r
    r = x
    if any(type(v) is T and _restricted(v) for v, n in segs(x, w)):
        out = []
        for v, n in segs(x, w):
            if type(v) is T and v.op == "bw" and n > 1: out += [(_bw_generic(v, i, 1), 1) for i in range(n)]
            else: out.append((v, n))
        r = cat(out)
        _aff[("canon", r)] = r
    _aff[("canon", x)] = r
    return r
def eq(x, y, w):
    if x is y: return 1
    if type(x) is int:
        if type(y) is int: return 1 if x == y else 0
        x, y = y, x
    if w == 1:
        if type(y) is int: return x if y else bnot(x, 1)
        return bnot(bxor(x, y, 1), 1)
    s = symof(x, y)
    if s is not None: return from_table(s, [1 if a == b else 0 for a, b in zip(table(x, s), table(y, s))], 1)
    if hi_(x) < lo_(y) or hi_(y) < lo_(x): return 0
    if type(y) is int:
        if y & ~pmask(x): return 0
        if x.op == "bw" or x.op == "cat":
            z = _canon(x, w)
            if z is not x: return eq(z, y, w)
        if x.op == "add":
            if x.a[1]:
                return eq(_mklin(dict((t, k) for k, t in x.a[0]), 0, w), (y - x.a[1]) & M[w], w)
            if y and len(x.a[0]) == 1 and x.a[0][0][0] == M[w]:
                return eq(x.a[0][0][1], (-y) & M[w], w)
            if y == 0 and len(x.a[0]) == 2 and (x.a[0][0][0] + x.a[0][1][0]) & M[w] == 0 and x.a[0][0][0] in (1, M[w]):
                return eq(x.a[0][0][1], x.a[0][1][1], w)
            if y == 0 and len(x.a[0]) == 1 and x.a[0][0][0] == M[w]: return eq(x.a[0][0][1], 0, w)
        if x.op == "lut":
            vs, l, ix = x.a
            return lut([0] * l + [1 if v == y else 0 for v in vs], ix, 1)
        if x.op == "bw" and x.a[1]:
            return eq(_bw(x.a[0], 0, w), y ^ x.a[1], w)
        if x.op == "cat":
            # conjunction over the segments
            r = 1; o = 0
            for v, n in x.a:
                r = band(r, eq(v, (y >> o) & M[n], n), 1); o += n
                if type(r) is int and r == 0: return 0
            return r
        if x.op == "sx":
            n = x.a[0].w
            return eq(x.a[0], y & M[n], n) if sext(y & M[n], n, w) == y else 0
        if x.op == "ite":
            return ite(x.a[0], eq(x.a[1], y, w), eq(x.a[2], y, w), 1)
        if w == 8 and x.sym is not None: pass
    else:
        if x.op == "cat" or y.op == "cat":
            sx = segs(x, w); sy = segs(y, w)
            if len(sx) > 1 and len(sy) > 1 or True:
                r = 1; i = j = 0; ox = oy = 0; pos = 0; k0 = None
                parts = []
                while pos < w:
                    vx, nx = sx[i]; vy, ny = sy[j]; k = min(nx - ox, ny - oy)
                    parts.append((ext(vx, ox, k), ext(vy, oy, k), k))
                    ox += k; oy += k; pos += k
                    if ox == nx: i += 1; ox = 0
                    if oy == ny: j += 1; oy = 0
                if len(parts) > 1 and len(parts) <= 16 and not (len(sx) == 1 or len(sy) == 1):
                    for a, b, k in parts:
                        r = band(r, eq(a, b, k), 1)
                        if type(r) is int and r == 0: return 0
                    return r
        if x.op == "add" or y.op == "add":
            d = sub(x, y, w)
            if type(d) is int: return 1 if d == 0 else 0
            if d.op == "add" and not (len(d.a[0]) == 2 and d.a[1] == 0): return eq(d, 0, w)
        if x.id > y.id: x, y = y, x
    return _mk("eq", (x, y), 1, 0, 1, None, x.taint | tnt(y))

def ne(x, y, w): return bnot(eq(x, y, w), 1)

def ult(x, y, w):
    if type(x) is int and type(y) is int: return 1 if x < y else 0
    if x is y: return 0
    if hi_(x) < lo_(y): return 1
    if lo_(x) >= hi_(y): return 0
    if w == 1: return band(bnot(x, 1), y, 1)
    if type(x) is T and x.op == "lut" and type(y) is int: return lut([0] * x.a[1] + [1 if v < y else 0 for v in x.a[0]], x.a[2], 1)
    if type(y) is T and y.op == "lut" and type(x) is int: return lut([0] * y.a[1] + [1 if x < v else 0 for v in y.a[0]], y.a[2], 1)
    s = symof(x, y)
    if s is not None: return from_table(s, [1 if a < b else 0 for a, b in zip(table(x, s), table(y, s))], 1)
    # strip zero extension
    if type(y) is int and type(x) is T and x.op == "cat" and type(x.a[-1][0]) is int and x.a[-1][0] == 0:
        n = w - x.a[-1][1]
        if y >> n == 0: return ult(ext(x, 0, n), y, n)
        return 1
    if type(x) is int and type(y) is T and y.op == "cat" and type(y.a[-1][0]) is int and y.a[-1][0] == 0:
        n = w - y.a[-1][1]
        if x >> n == 0: return ult(x, ext(y, 0, n), n)
        return 0
    if type(y) is int and y == 1: return eq(x, 0, w)
    if type(x) is int and x == 0: return ne(y, 0, w)
    if type(y) is int and y == 1 << (w - 1): return bnot(ext(x, w - 1, 1), 1)
    if type(x) is int and x == M[w - 1]: return ext(y, w - 1, 1)
    # high slice comparison with a power of two
    if type(y) is int and y & (y - 1) == 0:
        k = y.bit_length() - 1
        return eq(ext(x, k, w - k), 0, w - k)
    if type(x) is int and (x + 1) & x == 0:
        k = x.bit_length()
        return ne(ext(y, k, w - k), 0, w - k)
    # x < c  canonical as  not (c-1 < x)
    if type(y) is int: return bnot(ult(y - 1, x, w), 1)
    return _mk("ult", (x, y), 1, 0, 1, None, tnt(x) | tnt(y))

def slt(x, y, w):
    h = 1 << (w - 1)
    if type(x) is int and type(y) is int: return 1 if (x ^ h) < (y ^ h) else 0
    if hi_(x) < h and hi_(y) < h: return ult(x, y, w)
    if lo_(x) >= h and hi_(y) < h: return 1
    if hi_(x) < h and lo_(y) >= h: return 0
    if x is y: return 0
    s = symof(x, y)
    if s is not None: return from_table(s, [1 if (a ^ h) < (b ^ h) else 0 for a, b in zip(table(x, s), table(y, s))], 1)
    if type(y) is int and y == 0: return ext(x, w - 1, 1)
    if type(x) is int and x == M[w]: return bnot(ext(y, w - 1, 1), 1)
    return ult(add(x, h, w), add(y, h, w), w)

def icmp(p, x, y, w):
    if p == "eq": return eq(x, y, w)
    if p == "ne": return bnot(eq(x, y, w), 1)
    if p == "ult": return ult(x, y, w)
    if p == "ugt": return ult(y, x, w)
    if p == "ule": return bnot(ult(y, x, w), 1)
    if p == "uge": return bnot(ult(x, y, w), 1)
    if p == "slt": return slt(x, y, w)
    if p == "sgt": return slt(y, x, w)
    if p == "sle": return bnot(slt(y, x, w), 1)
    return bnot(slt(x, y, w), 1)

def ite(c, x, y, w):
    if type(c) is int: return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y): return x
    s = c.sym
    if s is not None and (type(x) is int or x.sym is s) and (type(y) is int or y.sym is s):
        return from_table(s, [a if k else b for k, a, b in zip(table(c, s), table(x, s), table(y, s))], w)
    if w == 1:
        return bxor(y, band(c, bxor(x, y, 1), 1), 1)
    d = bxor(x, y, w)
    if type(d) is int:
        # y ^ (d & rep(c))
        return bxor(y, cat([(c if (d >> i) & 1 else 0, 1) for i in range(w)]), w)
    if c.op == "bw" and c.a[1] == 1 and len(c.a[0]) == 1:
        return ite(bnot(c, 1), y, x, w)
    if type(d) is T and d.op == "cat" and any(type(v) is int and v == 0 for v, n in d.a):
        out = []; o = 0
        for v, n in d.a:
            out.append((ite(c, ext(x, o, n), ext(y, o, n), n), n)); o += n
        return cat(out)
    return _mk("ite", (c, x, y), w, min(lo_(x), lo_(y)), max(hi_(x), hi_(y)), None, c.taint | tnt(x) | tnt(y))

def _lintab(values, ix, k):
    """(constant, [(index bit, column)]) when the table is affine in the free bits of the index"""
    if not 3 <= k <= 10: return None
    base = 0; free = []; o = 0
    for v, n in segs(ix, k):
        if type(v) is int: base |= v << o
        else: free += range(o, o + n)
        o += n
    if len(free) < 2 or base + (1 << free[-1]) >= len(values): return None
    c = values[base]; col = [values[base | 1 << j] ^ c for j in free]
    acc = [c]; pos = [base]
    for j, x in zip(free, col):
        acc += [a ^ x for a in acc]; pos += [q | 1 << j for q in pos]
        for q, a in zip(pos[len(pos) // 2:], acc[len(acc) // 2:]):
            if q < len(values) and values[q] != a: return None
    return c, list(zip(free, col))
def lut(values, idx, w):
    """values[idx], idx a term whose range is inside the table"""
    if type(idx) is int: return values[idx] if idx < len(values) else 0
    if idx.sym is not None: return from_table(idx.sym, [values[i] if i < len(values) else 0 for i in table(idx, idx.sym)], w)
    inner = idx
    if inner.op == "cat" and len(inner.a) == 2 and inner.a[1][0] == 0 and type(inner.a[1][0]) is int: inner = inner.a[0][0]
    if type(inner) is T and inner.op == "lut":
        # table of a table
        ivs, il, ix = inner.a
        return lut([0] * il + [values[i] if i < len(values) else 0 for i in ivs], ix, w)
    # canonical: only the reachable part
    vs = tuple(values[idx.lo: idx.hi + 1])
    if min(vs) == max(vs): return vs[0]
    if all(v == i + idx.lo for i, v in enumerate(vs)):
        return trunc(idx, w) if idx.w >= w else zext(idx, idx.w, w)
    hb = max(vs).bit_length()
    k = pmask(idx).bit_length()
    ix = ext(idx, 0, k)
    g = _lintab(values, ix, k)
    if g:
        # table affine over GF(2): the xor of its columns selected by the index bits
        r = g[0]
        for j, col in g[1]:
            b = ext(ix, j, 1)
            r = bxor(r, cat([(b if (col >> i) & 1 else 0, 1) for i in range(w)]), w)
        return r
    t = _mk("lut", (vs, idx.lo, ix), hb, min(vs), max(vs), None, idx.taint)
    return cat([(t, hb), (0, w - hb)])

def uf(name, args, w, idx=0, lo=0, hi=None, taint=None):
    """uninterpreted function application (one w-bit projection of its result)"""
    args = tuple(args)
    if taint is None:
        taint = 0
        for a in args:
            if type(a) is T: taint |= a.taint
            elif type(a) is tuple:
                for b in a: taint |= tnt(b) if not isinstance(b, str) else 0
    t = _mk("uf", (name, idx, args), w, lo, M[w] if hi is None else hi, None, taint)
    return t

# ----------------------------------------------------- printing
def show(t, d=4):
    if type(t) is int: return hex(t)
    if t.op == "sym": return str(t.a[0])
    if d == 0: return "%s%d.." % (t.op, t.w)
    if t.op == "cat": return "cat(" + ",".join("%s:%d" % (show(v, d - 1), n) for v, n in t.a[:6]) + ")"
    if t.op == "ext": return "%s[%d+%d]" % (show(t.a[0], d - 1), t.a[1], t.w)
    if t.op == "tbl": return "tbl%d(%s)" % (t.w, t.a[0].a[0])
    if t.op == "add": return "(" + "+".join("%d*%s" % (_signed(k, t.w), show(x, d - 1)) for k, x in t.a[0][:4]) + "+%d)" % _signed(t.a[1], t.w)
    if t.op == "bw": return "bw(" + "^".join("&".join(show(l, d - 1) for l in m) for m in list(t.a[0])[:4]) + "^%x)" % t.a[1]
    if t.op == "uf": return "%s.%d(..)" % (t.a[0], t.a[1])
    return t.op + "(" + ",".join(show(x, d - 1) if isinstance(x, (int, T)) else "_" for x in t.a[:4]) + ")"

def support(t, acc=None, seen=None):
    """set of input symbols a value depends on"""
    if acc is None: acc = set(); seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple or type(x) is frozenset or type(x) is list: st.extend(x); continue
        if type(x) is not T or x in seen: continue
        seen.add(x)
        if x.op == "sym": acc.add(x)
        elif x.op == "tbl": acc.add(x.sym)
        else: st.extend(x.a)
    return acc

# ----------------------------------------------------- random interpretation
UF_EVAL = {}     # name -> python function(list of byte-int args ...) -> bytes/int

class Sampler:
    """evaluates terms on N valuations of the input symbols that satisfy the facts"""
    def __init__(self, n, seed, masks=None, fixed=None, ranges=None):
        self.n = n; self.rnd = random.Random(seed); self.np = np.random.RandomState(seed & 0x7fffffff)
        self.cache = {}; self.masks = masks or {}; self.fixed = fixed or {}; self.ranges = ranges or {}
    def _sym(self, s):
        if s.tab is not None:
            dom = s.tab
            m = self.masks.get(s)
            if m is not None: dom = [v for v in dom if (m >> v) & 1] or dom
            edge = [dom[0], dom[-1]]
            return np.array([self.rnd.choice(edge) if self.rnd.random() < 0.15 else self.rnd.choice(dom) for _ in range(self.n)], dtype=object)
        lo, hi = self.ranges.get(s, (s.lo, s.hi))
        return np.array([self.rnd.choice((lo, hi)) if self.rnd.random() < 0.2 else self.rnd.randint(lo, hi) for _ in range(self.n)], dtype=object)
    def ev(self, t):
        if type(t) is int: return np.array([t] * self.n, dtype=object)
        c = self.cache
        if t in c: return c[t]
        # iterative post-order
        st = [(t, 0)]
        while st:
            x, ph = st.pop()
            if x in c: continue
            if x in self.fixed:
                y = self.fixed[x]
                if type(y) is int: c[x] = np.array([y] * self.n, dtype=object); continue
                if y in c: c[x] = c[y]; continue
                st.append((x, 0)); st.append((y, 0)); continue
            if ph == 0:
                st.append((x, 1))
                for y in _children(x):
                    if y not in c: st.append((y, 0))
            else: c[x] = self._ev1(x)
        return c[t]
    def _ev1(self, x):
        op = x.op; c = self.cache; w = x.w
        g = lambda y: c[y] if type(y) is T else np.array([y] * self.n, dtype=object)
        if op == "sym": return self._sym(x)
        if op == "tbl":
            m = dict(zip(x.sym.tab, x.a[1])); return np.array([m[v] for v in g(x.sym)], dtype=object)
        if op == "ext": return (g(x.a[0]) >> x.a[1]) & M[w]
        if op == "cat":
            r = 0; o = 0
            for v, n in x.a: r = r + (g(v) << o); o += n
            return r
        if op == "sx":
            n = x.a[0].w; v = g(x.a[0]); return np.array([sext(int(k), n, w) for k in v], dtype=object)
        if op == "bw":
            acc = np.array([x.a[1]] * self.n, dtype=object)
            for mono in x.a[0]:
                p = None
                for l in mono: p = g(l) if p is None else p & g(l)
                acc = acc ^ p
            return acc
        if op == "add":
            acc = np.array([x.a[1]] * self.n, dtype=object)
            for k, y in x.a[0]: acc = acc + k * g(y)
            return acc & M[w]
        if op in ("xor", "and", "or"):
            acc = g(x.a[0])
            for y in x.a[1:]:
                acc = acc ^ g(y) if op == "xor" else acc & g(y) if op == "and" else acc | g(y)
            return acc
        if op == "mul": return (g(x.a[0]) * g(x.a[1])) & M[w]
        if op == "shl": return np.array([(int(a) << int(b)) & M[w] if b < w else 0 for a, b in zip(g(x.a[0]), g(x.a[1]))], dtype=object)
        if op == "lshr": return np.array([int(a) >> int(b) if b < w else 0 for a, b in zip(g(x.a[0]), g(x.a[1]))], dtype=object)
        if op == "ashr": return np.array([ashr(int(a), int(b), w) for a, b in zip(g(x.a[0]), g(x.a[1]))], dtype=object)
        if op in ("udiv", "urem", "sdiv", "srem"):
            f = {"udiv": cudiv, "urem": curem, "sdiv": csdiv, "srem": csrem}[op]
            return np.array([f(int(a), int(b), w) for a, b in zip(g(x.a[0]), g(x.a[1]))], dtype=object)
        if op == "eq": return np.array([1 if a == b else 0 for a, b in zip(g(x.a[0]), g(x.a[1]))], dtype=object)
        if op == "ult": return np.array([1 if a < b else 0 for a, b in zip(g(x.a[0]), g(x.a[1]))], dtype=object)
        if op == "ite": return np.array([b if a else d for a, b, d in zip(g(x.a[0]), g(x.a[1]), g(x.a[2]))], dtype=object)
        if op == "lut":
            vs, l, ix = x.a; return np.array([vs[int(i) - l] if 0 <= int(i) - l < len(vs) else 0 for i in g(ix)], dtype=object)
        if op == "uf":
            name, idx, args = x.a
            key = ("uf", name, args); res = c.get(key)
            if res is None:
                cols = []
                for a in args:
                    if type(a) is tuple: cols.append([g(b) if not isinstance(b, str) else b for b in a])
                    elif isinstance(a, str): cols.append(a)
                    else: cols.append(g(a))
                res = []
                for i in range(self.n):
                    av = [([int(b[i]) if not isinstance(b, str) else b for b in col] if type(col) is list else col if isinstance(col, str) else int(col[i])) for col in cols]
                    f = UF_EVAL.get(name)
                    if f is not None: res.append(f(*av))
                    else: res.append(hashlib.shake_256(repr((name, av)).encode()).digest(256))
                c[key] = res
            nb = (w + 7) // 8
            out = []
            for r in res:
                if type(r) is int: v = r
                elif w == 8: v = r[idx] if idx < len(r) else 0
                else: v = int.from_bytes(r[idx * nb: idx * nb + nb], "little")
                v &= M[w]
                if not (x.lo <= v <= x.hi): v = x.lo + v % (x.hi - x.lo + 1)
                out.append(v)
            return np.array(out, dtype=object)
        raise RuntimeError("eval " + op)

def _children(x):
    op = x.op
    if op == "sym": return ()
    if op == "tbl": return (x.sym,)
    if op == "ext" or op == "sx": return (x.a[0],)
    if op == "cat": return [v for v, n in x.a if type(v) is T]
    if op == "bw": return [l for m in x.a[0] for l in m]
    if op == "add": return [t for k, t in x.a[0]]
    if op == "lut": return (x.a[2],)
    if op == "uf":
        out = []
        for a in x.a[2]:
            if type(a) is tuple: out.extend(b for b in a if type(b) is T)
            elif type(a) is T: out.append(a)
        return out
    return [y for y in x.a if type(y) is T]
