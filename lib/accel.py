"""Exact acceleration of block-consuming loops.

At three consecutive arrivals at a loop header every changed value is classified:
 * an integer or pointer offset that changes by the same amount: linear,
 * a value equal to (a byte of) the reference chaining value after j blocks: chained,
 * any other value graph: scratch.
All comparisons and truncations made in one iteration are logged; the largest N is
computed for which every one of them provably keeps its outcome.  N iterations are then
skipped: linear values advance, chained values become unknowns that stand for the
chaining value after the skipped blocks, scratch becomes unknown."""
import terms as t
import spec
from terms import T, M
from interp import P, Limit

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Chain(object):
    """reference chaining: H0, blk(j) -> bytes of block j, f(H, block) -> H"""
    def __init__(s, name, H0, f, w, blk, B): s.name = name; s.H = list(H0); s.j = 0; s.f = f; s.w = w; s.blk = blk; s.B = B; s.tab = None; s.gen = 0; s.on_rebase = None
    def table(s, k):
        if s.tab is None:
            s.tab = {}; s.val = [s.H]; H = s.H
            s._ext(k)
        elif len(s.val) <= k: s._ext(k)
        return s.tab
    def _ext(s, k):
        while len(s.val) <= k:
            H = [spec.cutw(x, s.w) for x in s.f(s.val[-1], s.blk(s.j + len(s.val) - 1))]; d = len(s.val); s.val.append(H)
            for i, x in enumerate(H):
                if type(x) is T:
                    s.tab[x] = (d, i, None)
                    for b in range(s.w // 8):
                        y = t.ext(x, 8 * b, 8)
                        if type(y) is T: s.tab[y] = (d, i, b)
    def rebase(s, j):
        s.gen += 1; s.j = j
        s.H = [t.sym("%s.%d.%d" % (s.name, s.gen, i), s.w) for i in range(len(s.H))]; s.tab = None
    def rest(s, tail):
        """chaining value after the remaining blocks given as one byte list"""
        H = s.H
        for i in range(0, len(tail), s.B): H = [spec.cutw(x, s.w) for x in s.f(H, tail[i:i + s.B])]
        return H

class Accel(object):
    def __init__(s, chains, least=200): s.chains = chains; s.log = []; s.snap = {}; s.least = least; s.skips = 0; s.dead = set()
    def install(s, I): I.accel = s.hook; I.cmplog = s.log
    def hook(s, I, st, fr, code, to, k):
        d = len(st.frames); key = (d, code.f.name, to)
        # a nested loop's log entries stay part of the enclosing iteration
        if k == 1: s.snap[key] = [s.take(st, fr, code, to)]; return
        sn = s.snap.get(key)
        if sn is None: return
        sn.append(s.take(st, fr, code, to))
        if len(sn) < 3: return
        if len(sn) > 3: del sn[0]
        if s.skip(I, st, fr, code, to, sn, key): s.snap[key] = [s.take(st, fr, code, to)]
        elif k > 8: s.snap.pop(key, None)
    def take(s, st, fr, code, to):
        regs = [(p.dst, fr.regs[p.dst]) for p in code.f.blocks[to].phis]
        mem = {}
        for oid, o in st.mem.items():
            if o.kind in ("stack", "heap", "out") and o.alive: mem[oid] = o.cells if o.tok is not st.tok else dict(o.cells)
        for oid in mem:
            o = st.mem[oid]
            if mem[oid] is o.cells: mem[oid] = dict(o.cells)
        return regs, mem, len(s.log)
    def lin(s, a, b, c, w):
        d1 = (b - a) & M[w]; d2 = (c - b) & M[w]
        return sgn(d1, w) if d1 == d2 else None
    def skip(s, I, st, fr, code, to, sn, key):
        (r1, m1, l1), (r2, m2, l2), (r3, m3, l3) = sn
        A = s.log[l1:l2]; B = s.log[l2:l3]
        if len(A) != len(B): return False
        N = 1 << 62
        for x, y in zip(A, B):
            if x[0] != y[0]: return False
            if x[0] == "trunc":
                _, v1, w0, w = x; v2 = y[1]
                d = sgn((v2 - v1) & M[w0], w0)
                if d == 0: continue
                base = (v2 >> w) << w
                if (v1 >> w) << w != base: return False
                n = (base + M[w] - v2) // d if d > 0 else (v2 - base) // -d
                N = min(N, n); continue
            op, a1, b1, w = x; a2, b2 = y[1], y[2]
            if any(type(v) is not int for v in (a1, b1, a2, b2)): return False
            da = sgn((a2 - a1) & M[w], w); db = sgn((b2 - b1) & M[w], w)
            if op[0] == "s":
                a1, b1, a2, b2 = [sgn(v, w) for v in (a1, b1, a2, b2)]; lo, hi = -(1 << (w - 1)), M[w - 1]
            else: lo, hi = 0, M[w]
            if a1 + da != a2 or b1 + db != b2: return False
            for v, d in ((a2, da), (b2, db)):
                if d > 0: N = min(N, (hi - v) // d)
                elif d < 0: N = min(N, (v - lo) // -d)
            f1, f2, D = a1 - b1, a2 - b2, da - db
            if D == 0: continue
            sg = lambda v: (v > 0) - (v < 0)
            if sg(f1) != sg(f2): return False
            if f2 == 0: return False
            if f2 * D > 0: continue
            # sign kept while |f2| - i*|D| > 0
            N = min(N, (abs(f2) - 1) // abs(D))
        if N < s.least: return False
        N -= 1
        # classify
        linr = []; linc = []; chained = []; scratch = []
        w_of = {p.dst: p.w for p in code.f.blocks[to].phis}
        for (d, a), (_, b), (_, c) in zip(r1, r2, r3):
            if b is c and type(b) is T or (type(b) is not T and b == c): continue
            w = w_of[d]
            if type(c) is int and type(b) is int and type(a) is int:
                k = s.lin(a, b, c, w)
                if k is None: return False
                v = c + k * N
                if not 0 <= v <= M[w]: return False
                linr.append((d, v))
            elif type(c) is P and type(b) is P and type(a) is P and a.o == b.o == c.o and type(c.off) is int and type(b.off) is int and type(a.off) is int and b.off - a.off == c.off - b.off:
                linr.append((d, P(c.o, c.off + (c.off - b.off) * N)))
            elif type(c) is T: (chained if s.find(c) else scratch).append((None, d, c, w))
            else: return False
        for oid, c3 in m3.items():
            c2 = m2.get(oid); c1 = m1.get(oid)
            if c2 is None or c1 is None: return False
            ch = [k for k in c3 if not (c2.get(k) is c3[k] or (type(c3[k]) is not T and c2.get(k) == c3[k]))]
            done = set()
            for k in sorted(ch):
                if k in done: continue
                v = c3[k]
                if type(v) is T: (chained if s.find(v) else scratch).append((oid, k, v, 8)); continue
                for n in (8, 4, 1):
                    b = k - k % n; z = [[c.get(b + i) for i in range(n)] for c in (c1, c2, c3)]
                    if any(type(q) is not int for y in z for q in y): continue
                    p, q, r = [sum(q << (8 * i) for i, q in enumerate(y)) for y in z]
                    dl = s.lin(p, q, r, 8 * n)
                    if dl is not None and 0 <= r + dl * N <= M[8 * n]:
                        v = r + dl * N
                        for i in range(n): linc.append((oid, b + i, (v >> (8 * i)) & 255)); done.add(b + i)
                        break
                else: return False
        if not chained: return False
        # one chain, one block count
        hits = [s.find(v) for _, _, v, _ in chained]
        cs = {id(h[0]) for h in hits}; js = {h[1][0] for h in hits}
        if len(cs) != 1: return False
        c = hits[0][0]; j3 = max(js)
        prev = None
        for oid, k, v, w in chained:
            h = s.find(v)
            if h[1][0] != j3: continue
            old = dict(r2).get(k) if oid is None else m2[oid].get(k)
            g = s.find(old)
            if g: prev = g[1][0]
        if prev is None: return False
        step = j3 - prev
        if step <= 0: return False
        newj = c.j + j3 + N * step
        plan = [(oid, k, s.find(v)[1] if s.find(v)[1][0] == j3 else None, w) for oid, k, v, w in chained] + [(oid, k, None, w) for oid, k, v, w in scratch]
        c.rebase(newj)
        for d, v in linr: fr.regs[d] = v
        for oid, k, v in linc: st.wobj(oid).cells[k] = v
        for oid, k, h, w in plan:
            if h is None: v = t.fresh(w, tag="skipped")
            else: v = c.H[h[1]] if h[2] is None else t.ext(c.H[h[1]], 8 * h[2], 8)
            if oid is None: fr.regs[k] = v
            else: st.wobj(oid).cells[k] = v
        s.skips += 1
        if c.on_rebase: c.on_rebase(c)
        I.stats["accelerated_iterations"] = I.stats.get("accelerated_iterations", 0) + N
        return True
    def find(s, v):
        if type(v) is not T: return None
        for c in s.chains:
            h = c.table(4).get(v)
            if h: return c, h
        return None
