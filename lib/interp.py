"""Abstract interpreter over LLVM IR (trace-partitioned, with joins at merge points).

Abstract state: byte-granular memory objects, SSA registers holding value-graph
terms (terms.py), per-input-byte value sets refined at branches, intervals on terms
and a set of branch facts.  States are propagated in topological order of the
(unrolled) control-flow graph and joined where they meet with equal control
constants.  Memory obligations (bounds, initialisation, liveness) are checked at
every access."""
import heapq, itertools, time
import terms as t
from terms import T, M
from llvmir import Ref, GRef, FRef, UNDEF, AsmRef, AnalysisError

class P(object):
    """pointer: object id + byte offset (int or 64-bit term)"""
    __slots__ = ("o", "off")
    def __init__(s, o, off): s.o = o; s.off = off
    def __eq__(s, b): return type(b) is P and s.o == b.o and (s.off is b.off or (type(s.off) is int and s.off == b.off))
    def __ne__(s, b): return not s == b
    def __hash__(s): return hash((s.o, s.off if type(s.off) is int else s.off.id))
    def __repr__(s): return "&%s+%s" % (s.o, s.off)
class FP(object):
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __eq__(s, b): return type(b) is FP and s.name == b.name
    def __hash__(s): return hash(s.name)
class Und(object):
    def __repr__(s): return "undef"
UND = Und()

class Obj(object):
    __slots__ = ("id", "name", "size", "kind", "cells", "lazy", "alive", "tok", "ro", "dirty", "pend", "meta")
    def copy(s, tok):
        o = Obj.__new__(Obj)
        o.id = s.id; o.name = s.name; o.size = s.size; o.kind = s.kind; o.cells = dict(s.cells); o.lazy = s.lazy
        o.alive = s.alive; o.tok = tok; o.ro = s.ro; o.dirty = dict(s.dirty) if s.dirty else None
        o.pend = set(s.pend) if s.pend else None; o.meta = dict(s.meta) if type(s.meta) is dict else s.meta
        return o

class Frame(object):
    __slots__ = ("fn", "regs", "blk", "pc", "it", "allocas", "ret", "pos")
    def copy(s):
        f = Frame.__new__(Frame); f.fn = s.fn; f.regs = list(s.regs); f.blk = s.blk; f.pc = s.pc; f.it = dict(s.it)
        f.allocas = list(s.allocas); f.ret = s.ret; f.pos = s.pos
        return f

class Tok(object): pass

class State(object):
    __slots__ = ("mem", "frames", "masks", "conds", "rng", "events", "approx", "log", "tok", "nid", "fuel", "tags", "trace", "rv", "end", "und")
    def clone(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.frames = [f.copy() for f in s.frames]; n.masks = dict(s.masks); n.conds = dict(s.conds)
        n.rng = dict(s.rng); n.events = list(s.events); n.approx = s.approx; n.log = list(s.log); n.tok = Tok(); s.tok = Tok()
        n.nid = s.nid; n.fuel = s.fuel; n.tags = dict(s.tags); n.trace = s.trace; n.rv = s.rv; n.end = s.end; n.und = s.und
        return n
    # ---- memory
    def wobj(s, oid):
        o = s.mem[oid]
        if o.tok is not s.tok:
            o = o.copy(s.tok); s.mem[oid] = o
        return o
    def new_obj(s, name, size, kind, lazy=None, ro=False):
        if t.PHASE[0] and kind in ("input", "out"): name = t.PHASE[0] + name
        o = Obj(); o.id = name
        if kind in ("stack", "heap") or name in s.mem:
            k = 0
            while True:
                o.id = "%s@%d" % (name, k)
                if o.id not in s.mem: break
                k += 1
        o.name = name; o.size = size; o.kind = kind; o.cells = {}; o.lazy = lazy; o.alive = True; o.tok = s.tok; o.ro = ro
        o.dirty = None; o.pend = None; o.meta = None
        s.mem[o.id] = o
        return o
    def rd(s, oid, off):
        """cell value or None when uninitialised"""
        o = s.mem[oid]; v = o.cells.get(off)
        if v is None and o.lazy is not None and 0 <= off < o.size:
            v = o.lazy(off)
        return v
    def bytes(s, ptr_or_oid, n, off=0):
        if type(ptr_or_oid) is P: off += ptr_or_oid.off; ptr_or_oid = ptr_or_oid.o
        return [s.rd(ptr_or_oid, off + i) for i in range(n)]
    def mask(s, sy):
        m = s.masks.get(sy)
        if m is None:
            m = sy._x
            if m is None:
                m = 0
                for v in sy.tab: m |= 1 << v
                sy._x = m
        return m

class Stop(Exception):
    """path ends"""
    def __init__(s, kind, detail=""): s.kind = kind; s.detail = detail
class Limit(Exception): pass

def fullmask(sy):
    m = 0
    for v in sy.tab: m |= 1 << v
    return m

class Interp(object):
    def __init__(s, mod, models=None, policy=None):
        s.mod = mod; s.models = models or {}
        s.max_steps = 3000000; s.max_states = 4000; s.max_iter = 200000
        s.stats = dict(instrs=0, forks=0, joins=0, loads=0, stores=0, paths=0, calls=0, unproven=0, branches=0)
        s.unproven = []; s.covered = set(); s.sites = set()
        s.wipers = ()               # functions whose overwrites count as lasting
        s.track_secret = 0          # taint bit whose storage is tracked as 'dirty'
        s.join_consts = False       # allow joining different constants
        s.merge = True; s.exact_join = False
        s.split_limit = 300
        s.unmodelled = set()
        s.on_free = None; s.accel = None; s.cmplog = None; s.cut = None
        s.uninit_ok = False
        s.ct = None; s.ctargs = {}  # label whose influence on control flow and addresses is reported
        s._code = {}; s._ro = {}
        s.watch = None; s.deadline = 1e18

    # ------------------------------------------------------------ set-up
    def initial(s):
        st = State.__new__(State)
        st.mem = {}; st.frames = []; st.masks = {}; st.conds = {}; st.rng = {}; st.events = []; st.approx = False; st.log = []
        st.tok = Tok(); st.nid = 0; st.fuel = 0; st.tags = {}; st.trace = None; st.rv = None; st.end = None; st.und = False
        for g in s.mod.globals.values():
            o = st.new_obj("@" + g.name, g.size if not g.decl else 1 << 20, "global", None, g.const)
            for k, v in g.cells.items():
                if type(v) is tuple:
                    c = v[1]
                    o.cells[k] = ("P", s.cval(c, 64), v[2])
                else: o.cells[k] = v
            if g.decl: o.lazy = lambda off, n=g.name: t.sym("ext_%s[%d]" % (n, off))
        return st

    def cval(s, c, w):
        if type(c) is int: return c
        if type(c) is GRef: return P("@" + c.name, c.off)
        if type(c) is FRef: return FP(c.name)
        if type(c) is AsmRef: return c
        return UND

    def call(s, st, name, args):
        """abstractly execute function `name`; returns list of final states (rv, end set)"""
        fn = s.mod.funcs.get(name)
        if fn is None or fn.decl: raise AnalysisError("entry point %s not found in the analysed sources" % name)
        st.frames = []
        s.push(st, fn, args, None)
        return s.explore(st)

    def push(s, st, fn, args, ret):
        c = s._code.get(fn.name)
        if c is None: c = s._code[fn.name] = Code(s, fn)
        f = Frame.__new__(Frame); f.fn = c; f.regs = list(c.template); f.blk = fn.rpo[0]; f.pc = 0; f.it = {}; f.allocas = []; f.ret = ret
        f.pos = None
        for i, a in enumerate(args[:fn.nparams]): f.regs[i] = a
        st.frames.append(f); s.covered.add(fn.name)
        if len(st.frames) > 60: raise Limit("recursion")

    # ------------------------------------------------------------ scheduling
    def position(s, st):
        out = []
        for f in st.frames:
            for h, r in f.fn.hdr[f.blk]: out.append(r); out.append(f.it.get(h, 0))
            out.append(f.fn.f.blocks[f.blk].rpo); out.append(f.pc)
        return tuple(out)

    def explore(s, st0):
        done = []; heap = []; seq = itertools.count(); at = {}
        cur = st0; steps0 = s.stats["instrs"]
        def put(x):
            p = s.position(x)
            if p in at:
                if s.merge:
                    for i, y in enumerate(at[p]):
                        m = s.join(y, x)
                        if m is not None:
                            at[p][i] = m; s.stats["joins"] += 1; return
                at[p].append(x)
            else: at[p] = [x]; heapq.heappush(heap, p)
        nlive = 0
        put(st0)
        while heap:
            p = heapq.heappop(heap); lst = at.pop(p)
            if len(lst) > s.max_states: raise Limit("too many states")
            for x in lst:
                # run x until it blocks (reaches a block boundary behind others) or ends
                work = [x]
                while work:
                    y = work.pop()
                    try: nxt = s.run_block(y, not heap and not work and len(lst) == 1)
                    except Stop as e:
                        y.end = e.kind; y.rv = e.detail; done.append(y); s.stats["paths"] += 1; continue
                    if s.stats["instrs"] - steps0 > s.max_steps: raise Limit("step budget")
                    if time.time() > s.deadline: raise Limit("time budget")
                    for z in nxt:
                        if z.end is not None: done.append(z); s.stats["paths"] += 1
                        elif len(lst) == 1 and not heap and len(nxt) == 1 and not work: work.append(z)
                        else: put(z)
        return done

    def run_block(s, st, solo):
        """interpret from the current point to the next block boundary; returns successor states"""
        while True:
            f = st.frames[-1]; code = f.fn.code[f.blk]; regs = f.regs; pc = f.pc; n = len(code)
            s.cur = st
            while pc < n:
                f.pc = pc
                s.stats["instrs"] += 1
                r = code[pc](st, regs)
                if r is None: pc += 1; continue
                if r is CONT:      # frame changed (call / return)
                    break
                return r
            else: raise Limit("fell off block")

    # ------------------------------------------------------------ facts
    def rngq(s, st, x, d=8):
        if type(x) is int: return x, x
        if type(x) is P: return 0, M[64]
        lo, hi = x.lo, x.hi
        r = st.rng.get(x)
        if r is not None: lo = max(lo, r[0]); hi = min(hi, r[1])
        if x.sym is not None:
            m = st.masks.get(x.sym)
            if m is not None:
                tb = t.table(x, x.sym); vs = [tb[i] for i, v in enumerate(x.sym.tab) if (m >> v) & 1]
                if vs: return max(lo, min(vs)), min(hi, max(vs))
            return lo, hi
        if d == 0 or (not st.masks and not st.rng): return lo, hi
        op = x.op
        if op == "cat":
            l = h = o = 0
            for v, n in x.a:
                a, b = s.rngq(st, v, d - 1); l |= a << o; h |= b << o; o += n
            lo = max(lo, l); hi = min(hi, h)
        elif op == "add":
            w = x.w
            if x.a[1]:
                base = t._mklin(dict((y, k) for k, y in x.a[0]), 0, w)
                if type(base) is T and (base in st.rng):
                    a, b = st.rng[base]; c = x.a[1]
                    cs = t._signed(c, w)
                    if a + cs >= 0 and b + cs <= M[w]: lo = max(lo, a + cs); hi = min(hi, b + cs)
            l = h = t._signed(x.a[1], w)
            for k, y in x.a[0]:
                k = t._signed(k, w); a, b = s.rngq(st, y, d - 1)
                if k >= 0: l += k * a; h += k * b
                else: l += k * b; h += k * a
            if l >= 0 and h <= M[w]: lo = max(lo, l); hi = min(hi, h)
        elif op == "ext" and x.a[1] == 0:
            a, b = s.rngq(st, x.a[0], d - 1)
            if b >> x.w == a >> x.w: lo = max(lo, a & M[x.w]); hi = min(hi, b & M[x.w])
        elif op == "ext":
            a, b = s.rngq(st, x.a[0], d - 1)
            if b >> (x.a[1] + x.w) == a >> (x.a[1] + x.w): lo = max(lo, (a >> x.a[1]) & M[x.w]); hi = min(hi, (b >> x.a[1]) & M[x.w])
        elif op == "udiv" and type(x.a[1]) is int and x.a[1]:
            a, b = s.rngq(st, x.a[0], d - 1); lo = max(lo, a // x.a[1]); hi = min(hi, b // x.a[1])
        elif op == "urem" and type(x.a[1]) is int and x.a[1]:
            a, b = s.rngq(st, x.a[0], d - 1); c = x.a[1]
            if b // c == a // c: lo = max(lo, a % c); hi = min(hi, b % c)
        elif op == "ite":
            a, b = s.rngq(st, x.a[1], d - 1); a2, b2 = s.rngq(st, x.a[2], d - 1)
            lo = max(lo, min(a, a2)); hi = min(hi, max(b, b2))
        return lo, hi

    def decide(s, st, c):
        if type(c) is int: return c
        v = st.conds.get(c)
        if v is not None: return v
        if c.sym is not None:
            m = st.masks.get(c.sym)
            if m is None: return None
            a = set(k for k, v in zip(t.table(c, c.sym), c.sym.tab) if (m >> v) & 1)
            if len(a) == 1: return next(iter(a))
            return None
        op = c.op
        if op == "bw":
            acc = c.a[1]
            for mono in c.a[0]:
                p = 1
                for l in mono:
                    d = s.decide(st, l)
                    if d == 0: p = 0; break
                    if d is None: p = None
                if p is None: return None
                acc ^= p
            return acc
        if op == "ext" or op == "ite" or op == "tbl" or op == "uf" or op == "sym":
            l, h = s.rngq(st, c)
            if l == h: return l
            return None
        if op == "eq":
            l1, h1 = s.rngq(st, c.a[0]); l2, h2 = s.rngq(st, c.a[1])
            if h1 < l2 or h2 < l1: return 0
            if l1 == h1 == l2 == h2: return 1
            return None
        if op == "ult":
            x, y = c.a
            l1, h1 = s.rngq(st, x); l2, h2 = s.rngq(st, y)
            if h1 < l2: return 1
            if l1 >= h2: return 0
            return None
        return None

    def set_rng(s, st, x, lo, hi, d=4):
        """assume lo<=x<=hi; False if infeasible"""
        if type(x) is int: return lo <= x <= hi
        a, b = s.rngq(st, x); lo = max(a, lo); hi = min(b, hi)
        if lo > hi: return False
        if (lo, hi) == (a, b): return True
        if x.sym is not None:
            tb = t.table(x, x.sym); m = st.mask(x.sym); nm = 0
            for k, v in zip(tb, x.sym.tab):
                if (m >> v) & 1 and lo <= k <= hi: nm |= 1 << v
            if not nm: return False
            st.masks[x.sym] = nm; return True
        st.rng[x] = (lo, hi)
        if d == 0: return True
        if x.op == "cat":
            v, n = x.a[0]
            if len(x.a) == 2 and type(x.a[1][0]) is int and x.a[1][0] == 0 and type(v) is T: return s.set_rng(st, v, lo, hi, d - 1)
            if len(x.a) == 2 and type(v) is int and v == 0 and type(x.a[1][0]) is T:
                return s.set_rng(st, x.a[1][0], -(-lo >> n) if False else (lo + M[n]) >> n, hi >> n, d - 1)
        elif x.op == "add":
            w = x.w
            if len(x.a[0]) == 1 and x.a[0][0][0] == 1:
                y = x.a[0][0][1]; c = t._signed(x.a[1], w); yl, yh = s.rngq(st, y)
                if yl + c >= 0 and yh + c <= M[w]: return s.set_rng(st, y, max(0, lo - c), hi - c, d - 1)
                if c < 0 and lo - c <= M[w] and hi - c <= M[w] and yh <= M[w] + c + 1 + 0: return s.set_rng(st, y, lo - c, hi - c, d - 1)
            elif x.a[1]:
                base = t._mklin(dict((y, k) for k, y in x.a[0]), 0, w); c = t._signed(x.a[1], w)
                if type(base) is T:
                    bl, bh = s.rngq(st, base)
                    if bl + c >= 0 and bh + c <= M[w] and lo - c >= 0 and not s.set_rng(st, base, lo - c, hi - c, d - 1): return False
            if 1 < len(x.a[0]) <= 4:
                # bounds propagation to each summand where the sum cannot wrap
                rs = []; c = t._signed(x.a[1], w); l = h = c
                for k, y in x.a[0]:
                    k = t._signed(k, w); p, q = s.rngq(st, y)
                    p, q = (k * p, k * q) if k > 0 else (k * q, k * p)
                    rs.append((k, y, p, q)); l += p; h += q
                if l >= 0 and h <= M[w]:
                    for k, y, p, q in rs:
                        p2 = max(p, lo - (h - q)); q2 = min(q, hi - (l - p))
                        if p2 > q2: return False
                        if (p2, q2) != (p, q):
                            y0, y1 = (-(-p2 // k), q2 // k) if k > 0 else (-(q2 // -k), (-p2) // -k)
                            if y0 > y1 or not s.set_rng(st, y, max(0, y0), y1, d - 1): return False
        elif x.op == "ext" and x.a[1] == 0:
            y = x.a[0]; yl, yh = s.rngq(st, y)
            if yh <= M[x.w]: return s.set_rng(st, y, lo, hi, d - 1)
        elif x.op == "ext":
            y, k = x.a[0], x.a[1]; yl, yh = s.rngq(st, y)
            if yh >> (k + x.w) == 0: return s.set_rng(st, y, lo << k, (hi << k) + M[k], d - 1)
        elif x.op == "udiv" and type(x.a[1]) is int:
            c = x.a[1]; return s.set_rng(st, x.a[0], lo * c, hi * c + c - 1, d - 1)
        elif x.op == "urem" and type(x.a[1]) is int:
            yl, yh = s.rngq(st, x.a[0])
            if yh < x.a[1]: return s.set_rng(st, x.a[0], lo, hi, d - 1)
        return True

    def assume(s, st, c, val):
        """add the fact c==val; False if it contradicts the state"""
        if type(c) is int: return c == val
        d = s.decide(st, c)
        if d is not None: return d == val
        if c.sym is not None:
            m = st.mask(c.sym); nm = 0
            for k, v in zip(t.table(c, c.sym), c.sym.tab):
                if (m >> v) & 1 and k == val: nm |= 1 << v
            if not nm: return False
            st.masks[c.sym] = nm; return True
        st.conds[c] = val
        op = c.op
        if op == "bw":
            monos, k = c.a
            if len(monos) == 1:
                mono = next(iter(monos))
                if len(mono) == 1: return s.assume(st, next(iter(mono)), val ^ k)
                if (val ^ k) == 1:
                    for l in mono:
                        if not s.assume(st, l, 1): return False
                else:
                    und = [l for l in mono if s.decide(st, l) != 1]
                    if len(und) == 1: return s.assume(st, und[0], 0)
            else:
                und = []; acc = k
                for mono in monos:
                    p = 1
                    for l in mono:
                        dd = s.decide(st, l)
                        if dd == 0: p = 0; break
                        if dd is None: p = None
                    if p is None: und.append(mono)
                    else: acc ^= p
                if len(und) == 1 and len(next(iter(und))) == 1: return s.assume(st, next(iter(und[0])), val ^ acc)
            return True
        if op == "eq":
            x, y = c.a
            if val == 1:
                if type(y) is int: return s.set_rng(st, x, y, y)
                l1, h1 = s.rngq(st, x); l2, h2 = s.rngq(st, y)
                return s.set_rng(st, x, l2, h2) and s.set_rng(st, y, l1, h1)
            if type(y) is int:
                l, h = s.rngq(st, x)
                if l == y: return s.set_rng(st, x, l + 1, h)
                if h == y: return s.set_rng(st, x, l, h - 1)
            else:
                # x != y with known order
                pass
            return True
        if op == "ult":
            x, y = c.a
            l1, h1 = s.rngq(st, x); l2, h2 = s.rngq(st, y)
            if val == 1:
                ok = s.set_rng(st, y, l1 + 1, M[64] if type(y) is int else M[y.w]) and s.set_rng(st, x, 0, h2 - 1)
            else:
                ok = s.set_rng(st, y, 0, h1) and s.set_rng(st, x, l2, M[64] if type(x) is int else M[x.w])
            if not ok: return False
            if type(x) is T and type(y) is T:
                w = x.w
                if val == 1: d1 = t.sub(y, x, w); lim = (1, max(0, h2 - l1))
                else: d1 = t.sub(x, y, w); lim = (0, max(0, h1 - l2))
                if type(d1) is T: return s.set_rng(st, d1, *lim)
            elif type(x) is T or type(y) is T:
                # relational linear form: constant vs linear combination
                z = x if type(x) is T else y
                if z.op == "add" and any(t._signed(k, z.w) < 0 for k, v in z.a[0]):
                    # c - e compared with constant: e = c - z
                    zl, zh = s.rngq(st, z); cc = z.a[1]
                    e = t.sub(cc, z, z.w)
                    if type(e) is T and cc >= zh: return s.set_rng(st, e, cc - zh, cc - zl)
            return True
        if op in ("ext", "uf", "sym", "ite", "tbl"):
            st.rng[c] = (val, val)
        return True

    def values(s, st, x, limit=None):
        """feasible concrete values of a term, or None when not enumerable"""
        if type(x) is int: return [x]
        limit = limit or s.split_limit
        if x.sym is not None:
            m = st.mask(x.sym); tb = t.table(x, x.sym)
            return sorted(set(k for k, v in zip(tb, x.sym.tab) if (m >> v) & 1))
        l, h = s.rngq(st, x)
        if h - l + 1 > limit: return None
        return list(range(l, h + 1))

    def split(s, st, x):
        """fork on the value of x: list of (state, value); None if not enumerable"""
        vs = s.values(st, x)
        if vs is None: return None
        out = []
        for i, v in enumerate(vs):
            n = st.clone() if i < len(vs) - 1 else st
            # clone before modifying the original: last one reuses st
            out.append((n, v))
        res = []
        for n, v in out:
            if s.assume_eq(n, x, v): res.append((n, v))
        s.stats["forks"] += max(0, len(res) - 1)
        return res

    def assume_eq(s, st, x, v):
        c = t.eq(x, v, x.w)
        if not s.assume(st, c, 1): return False
        return s.set_rng(st, x, v, v)

    # ------------------------------------------------------------ events
    def loc(s, st):
        f = st.frames[-1]; I = f.fn.ins[f.blk][f.pc] if f.pc < len(f.fn.ins[f.blk]) else None
        k = len(st.frames) - 1
        return (f.fn.f.name, I.file if I else "", I.line if I else 0)

    def event(s, st, kind, detail):
        fn, fi, ln = s.loc(st)
        chain = " < ".join("%s:%d" % (f.fn.f.name, f.fn.ins[f.blk][f.pc].line) for f in reversed(st.frames))
        st.events.append(dict(kind=kind, func=fn, file=fi, line=ln, detail=detail, chain=chain))
        raise Stop("event", kind)

    def note_unproven(s, st, what):
        fn, fi, ln = s.loc(st); s.stats["unproven"] += 1
        if len(s.unproven) < 200: s.unproven.append("%s:%s:%d %s" % (fn, fi, ln, what))

    # ------------------------------------------------------------ memory access
    def check(s, st, p, n, wr):
        """validate an access of n bytes; returns object"""
        if type(p) is not P:
            if type(p) is int and p == 0 or p is UND or type(p) is int: s.event(st, "null" if p == 0 else "wild", "access through %r" % (p,))
            if type(p) is T: raise Limit("access through unresolved pointer")
            s.event(st, "wild", "access through %r" % (p,))
        o = st.mem.get(p.o)
        if o is None: s.event(st, "wild", "no object")
        if not o.alive: s.event(st, "use-after-free" if o.kind == "heap" else "use-after-return", "%s of %s" % ("write" if wr else "read", o.name))
        if wr and o.ro: s.event(st, "write-const", "write to constant object %s" % o.name)
        off = p.off
        if type(off) is int:
            if off < 0 or off + n > o.size:
                s.event(st, "out-of-bounds", "%s of %d byte(s) at offset %d of %s (%s bytes)" % ("write" if wr else "read", n, off, o.name, o.size))
        return o

    def resolve(s, st, p, n, wr):
        """symbolic offset: returns list of (state, pointer) with concrete offset, forking on the offset's value set"""
        off = p.off; o = st.mem[p.o]
        vs = s.values(st, off)
        if vs is None:
            l, h = s.rngq(st, off)
            if h >= 1 << 63 or h + n > o.size:
                s.note_unproven(st, "offset of %s not bounded" % o.name)
            raise Limit("symbolic offset with %s values" % ("many"))
        bad = [v for v in vs if (v - (1 << 64) if v >> 63 else v) < 0 or v + n > o.size]
        exact = off.sym is not None
        res = s.split(st, off)
        out = []
        for n2, v in res:
            sv = v - (1 << 64) if v >> 63 else v
            out.append((n2, P(p.o, sv), exact))
        return out

    def load_cells(s, st, o, off, n):
        cells = o.cells; out = []
        for i in range(off, off + n):
            v = cells.get(i)
            if v is None:
                if o.lazy is not None: v = o.lazy(i)
                if v is None:
                    return None
            out.append(v)
        return out

    def pack(s, cells):
        if len(cells) == 1:
            v = cells[0]
            if type(v) is tuple: raise Limit("partial pointer read")
            return v
        c0 = cells[0]
        if type(c0) is tuple:
            if len(cells) == 8 and all(type(c) is tuple and c[1] == c0[1] and c[2] == i for i, c in enumerate(cells)): return c0[1]
            raise Limit("mixed pointer read")
        r = 0; o = 0; sym = False
        for v in cells:
            if type(v) is not int: sym = True; break
            r |= v << o; o += 8
        if not sym: return r
        if any(type(v) is tuple for v in cells): raise Limit("mixed pointer read")
        return t.cat([(v, 8) for v in cells])

    def load(s, st, p, n):
        s.stats["loads"] += 1
        o = s.check(st, p, n, False)
        off = p.off
        if type(off) is not int:
            return s.load_sym(st, o, p, n)
        cells = s.load_cells(st, o, off, n)
        if cells is None:
            if s.uninit_ok: return t.fresh(8 * n, tag="uninit")
            s.event(st, "uninit", "read of uninitialised byte of %s at offset %d" % (o.name, off))
        return s.pack(cells)

    def load_sym(s, st, o, p, n):
        off = p.off
        if o.ro and o.kind == "global":
            r = s._ro.get((o.id, off, n))
            if r is not None: return r
        if off.sym is not None:
            m = st.mask(off.sym); vals = []; bad = []; good = 0
            for v, k in zip(off.sym.tab, t.table(off, off.sym)):
                kk = k - (1 << 64) if k >> 63 else k
                inb = 0 <= kk and kk + n <= o.size
                if (m >> v) & 1:
                    if not inb: bad.append(v)
                    else: good |= 1 << v
                vals.append(kk if inb else None)
            if bad:
                if not good: s.event(st, "out-of-bounds", "read at offset %s of %s (%d bytes)" % (off, o.name, o.size))
                b = st.clone()
                bm = 0
                for v in bad: bm |= 1 << v
                b.masks[off.sym] = bm; st.masks[off.sym] = good
                try: s.event(b, "out-of-bounds", "read outside %s (%d bytes) for input byte value(s) %s" % (o.name, o.size, bad[:4]))
                except Stop as e: b.end = e.kind; b.rv = e.detail
                raise ForkLoad([(st, None), (b, None)])
            tab = []; ok = True
            for k in vals:
                if k is None: tab.append(0); continue
                c = s.load_cells(st, o, k, n)
                if c is None or any(type(x) is not int for x in c): ok = False; break
                r = 0
                for i, x in enumerate(c): r |= x << (8 * i)
                tab.append(r)
            if ok:
                r = t.from_table(off.sym, tab, 8 * n)
                if o.ro and o.kind == "global" and None not in vals: s._ro[(o.id, off, n)] = r
                return r
        else:
            l, h = s.rngq(st, off)
            if h + n <= o.size and h - l <= 8192 and o.lazy is None:
                al = 1
                pm = t.pmask(off)
                tz = (pm & -pm).bit_length() - 1 if pm else 0
                c = {}
                ok = True
                for k in range((l >> tz) << tz, h + 1, 1 << tz):
                    cc = s.load_cells(st, o, k, n)
                    if cc is None or any(type(x) is not int for x in cc): ok = False; break
                    r = 0
                    for i, x in enumerate(cc): r |= x << (8 * i)
                    c[k >> tz] = r
                if ok:
                    idx = t.lshr(off, tz, 64)
                    vs = [c.get(i, 0) for i in range(0, (h >> tz) + 1)]
                    # the intrinsic range may exceed the state range
                    full = vs + [0] * (max(0, min(t.hi_(idx), 70000) + 1 - len(vs)))
                    return t.lut(full, idx, 8 * n)
        res = s.resolve(st, p, n, False)
        raise ForkLoad([(a, b) for a, b, c in res])

    def store_cells(s, st, o, off, cells):
        """o must be writable (wobj)"""
        c = o.cells
        if o.kind == "out":
            l = s.loc(st)
            if o.meta is None: o.meta = {}
            for i in range(len(cells)): o.meta[off + i] = l
        if s.track_secret:
            for i, v in enumerate(cells):
                k = off + i
                if type(v) is T and v.taint & s.track_secret:
                    if o.kind in ("stack", "heap"):
                        if o.dirty is None: o.dirty = {}
                        o.dirty[k] = s.loc(st)
                        if o.pend: o.pend.discard(k)
                elif o.dirty and k in o.dirty:
                    if o.pend is None: o.pend = set()
                    o.pend.add(k)
                c[k] = v
            return
        for i, v in enumerate(cells): c[off + i] = v

    def unpack(s, v, n):
        if n == 1: return [v if not isinstance(v, (P, FP)) else ("P", v, 0)]
        if type(v) is int: return [(v >> (8 * i)) & 255 for i in range(n)]
        if type(v) is T: return [t.ext(v, 8 * i, 8) for i in range(n)]
        if v is UND: return [None] * n
        return [("P", v, i) for i in range(n)]

    def store(s, st, p, v, n):
        s.stats["stores"] += 1
        if s.cut is not None and type(v) is T:
            c = s.cut.get(v)
            if c is not None: v = c
        o = s.check(st, p, n, True)
        if type(p.off) is not int:
            res = s.resolve(st, p, n, True)
            raise ForkLoad([(a, b) for a, b, c in res])
        o = st.wobj(p.o)
        if v is UND:
            for i in range(n): o.cells.pop(p.off + i, None)
            return
        if n == 1 and st.rng and type(v) is T and v.sym is None and v not in st.rng:
            # keep what is known about a stored byte at hand (deep terms lose it to the depth bound)
            l, h = s.rngq(st, v)
            if l > v.lo or h < v.hi: st.rng[v] = (l, h)
        s.store_cells(st, o, p.off, s.unpack(v, n))

    def memcpy(s, st, d, sp, n):
        if n == 0: return
        so = s.check(st, sp, n, False); do = s.check(st, d, n, True)
        if type(sp.off) is not int: raise ForkArg(1, [(a, b) for a, b, c in s.resolve(st, sp, n, False)])
        if type(d.off) is not int: raise ForkArg(0, [(a, b) for a, b, c in s.resolve(st, d, n, True)])
        if n > 2000000: raise Limit("huge copy")
        cells = []
        for i in range(sp.off, sp.off + n):
            v = so.cells.get(i)
            if v is None and so.lazy is not None: v = so.lazy(i)
            cells.append(v)
        do = st.wobj(d.o)
        if any(v is None for v in cells):
            for i, v in enumerate(cells):
                if v is None: do.cells.pop(d.off + i, None)
                else: s.store_cells(st, do, d.off + i, [v])
        else: s.store_cells(st, do, d.off, cells)

    def memset(s, st, d, v, n):
        if n == 0: return
        o = s.check(st, d, n, True)
        if type(d.off) is not int: raise ForkArg(0, [(a, b) for a, b, c in s.resolve(st, d, n, True)])
        if n > 2000000: raise Limit("huge fill")
        if type(v) is T and v.w > 8: v = t.trunc(v, 8)
        elif type(v) is int: v &= 255
        s.store_cells(st, st.wobj(d.o), d.off, [v] * n)

    def barrier(s, st, ptrs):
        """asm volatile with memory clobber: earlier overwrites of the objects whose address it is
        given can no longer be elided (of any other local the compiler may still prove that the asm
        cannot see it)"""
        for oid in {p.o for p in ptrs if type(p) is P}:
            o = st.mem.get(oid)
            if o is not None and o.pend:
                o = st.wobj(oid)
                for k in o.pend:
                    if o.dirty: o.dirty.pop(k, None)
                o.pend = None

    def release(s, st, o):
        """object dies: report secret residue"""
        if s.on_free is not None: s.on_free(s, st, o)

    # ------------------------------------------------------------ join
    def join(s, a, b):
        if len(a.frames) != len(b.frames): return None
        if a.tags != b.tags or a.log != b.log: return None
        if a.mem.keys() != b.mem.keys(): return None
        diffs = []
        for fa, fb in zip(a.frames, b.frames):
            if fa.fn is not fb.fn or fa.blk != fb.blk or fa.pc != fb.pc: return None
        for fi, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            top = fi == len(a.frames) - 1
            live = fa.fn.f.livephi[fa.blk] if (top and fa.pc == 0) else None
            ra, rb = fa.regs, fb.regs
            if live is None:
                live = fa.fn.live_at(fa.blk, fa.pc)
            for i in live:
                x, y = ra[i], rb[i]
                if x is y or x == y and type(x) is not T: continue
                if type(x) is T or type(y) is T:
                    if x is None or y is None or not (type(x) in (int, T) and type(y) in (int, T)): return None
                    w = x.w if type(x) is T else y.w
                    if type(x) is int or type(y) is int:
                        if not s.join_ct(x, y): return None
                    diffs.append(("r", fi, i, x, y, w))
                else:
                    if s.join_consts and type(x) is int and type(y) is int:
                        diffs.append(("r", fi, i, x, y, 64)); return None
                    return None
        md = []
        for oid, oa in a.mem.items():
            ob = b.mem[oid]
            if oa is ob: continue
            if oa.alive != ob.alive or oa.size != ob.size: return None
            if not oa.alive: continue
            if (oa.dirty or None) != (ob.dirty or None) and set(oa.dirty or ()) != set(ob.dirty or ()): return None
            if (oa.pend or set()) != (ob.pend or set()): return None
            for k in set(oa.cells) | set(ob.cells):
                x = oa.cells.get(k); y = ob.cells.get(k)
                if x is y or (type(x) is not T and x == y): continue
                if x is None or y is None or type(x) is tuple or type(y) is tuple: return None
                if type(x) is int and type(y) is int:
                    if not s.join_cell(oa, k, x, y): return None
                elif type(x) is int or type(y) is int:
                    if not s.join_ct(x, y): return None
                md.append((oid, k, x, y))
        # facts differing
        ms = []
        for k in set(a.masks) | set(b.masks):
            if a.mask(k) != b.mask(k): ms.append(k)
        # gate for pointwise join
        gate = None; exact = True
        ca = {k: v for k, v in a.conds.items() if b.conds.get(k) != v}
        cb = {k: v for k, v in b.conds.items() if a.conds.get(k) != v}
        rkeys = set(a.rng) | set(b.rng)
        rdiff = [k for k in rkeys if a.rng.get(k) != b.rng.get(k)]
        if len(ms) == 1 and not ca and not cb: gate = ("m", ms[0], a.mask(ms[0]), b.mask(ms[0]))
        elif len(ms) == 0 and len(ca) >= 1 and len(cb) >= 1:
            for k, v in ca.items():
                if cb.get(k) == 1 - v: gate = ("c", k, v); break
            if len(ca) > 1 or len(cb) > 1: exact = len(ca) <= 2 and len(cb) <= 2 and gate is not None
        if (len(ms) > 1 or (ms and (ca or cb))): exact = False
        if not ms and not ca and not cb: exact = exact
        elif gate is None: exact = False
        cache = {}
        def jv(x, y, w):
            k = (x, y)
            r = cache.get(k)
            if r is not None: return r
            r = None
            if gate is not None and gate[0] == "m":
                sy = gate[1]
                if (type(x) is int or x.sym is sy) and (type(y) is int or y.sym is sy) and not (gate[2] & gate[3]):
                    tx = t.table(x, sy); ty = t.table(y, sy)
                    r = t.from_table(sy, [(p if (gate[2] >> v) & 1 else q) for p, q, v in zip(tx, ty, sy.tab)], w)
                elif s.exact_join and not (gate[2] & gate[3]):
                    c = t.from_table(sy, [(gate[2] >> v) & 1 for v in sy.tab], 1)
                    r = t.ite(c, x, y, w)
            elif gate is not None:
                c, v = gate[1], gate[2]
                r = t.ite(c, x, y, w) if v else t.ite(c, y, x, w)
            if r is None:
                l1, h1 = s.rngq(a, x); l2, h2 = s.rngq(b, y)
                r = t.fresh(w, min(l1, l2), max(h1, h2), "j", t.tnt(x) | t.tnt(y))
                cache["approx"] = True
            elif type(r) is T and r.sym is None and (a.rng or b.rng):
                # what both sides know about the value survives the join
                l1, h1 = s.rngq(a, x); l2, h2 = s.rngq(b, y); l1 = min(l1, l2); h1 = max(h1, h2)
                if l1 > r.lo or h1 < r.hi: keep[r] = (l1, h1)
            cache[k] = r
            return r
        keep = {}
        n = a.clone()
        for kind, fi, i, x, y, w in diffs: n.frames[fi].regs[i] = jv(x, y, w)
        for oid, k, x, y in md:
            n.wobj(oid).cells[k] = jv(x, y, 8)
        for k in ms: n.masks[k] = a.mask(k) | b.mask(k)
        for k in list(n.conds):
            if b.conds.get(k) != n.conds[k]: del n.conds[k]
        for k in list(n.rng):
            r = b.rng.get(k)
            if r is None:
                l, h = k.lo, k.hi; bl, bh = s.rngq(b, k)
                n.rng[k] = (min(n.rng[k][0], bl), max(n.rng[k][1], bh))
            elif r != n.rng[k]: n.rng[k] = (min(r[0], n.rng[k][0]), max(r[1], n.rng[k][1]))
        for k, v in b.rng.items():
            if k not in a.rng:
                l, h = s.rngq(a, k); l = min(l, v[0]); h = max(h, v[1])
                if l > k.lo or h < k.hi: n.rng[k] = (l, h)
        n.rng.update(keep)
        n.approx = a.approx or b.approx or not exact or bool(cache.get("approx"))
        n.events = a.events + [e for e in b.events if e not in a.events]
        n.und = a.und or b.und
        return n

    def join_ct(s, x, y): return True
    def join_cell(s, o, k, x, y): return s.join_consts

class ForkLoad(Exception):
    """re-execute the current access in each state with the pointer replaced (None: same pointer)"""
    def __init__(s, alts): s.alts = alts
class ForkArg(Exception):
    def __init__(s, i, alts): s.i = i; s.alts = alts
class _C(object): pass
CONT = _C()

# ---------------------------------------------------------------- compiled code
class Code(object):
    def __init__(s, I, fn):
        s.f = fn; s.I = I
        s.template = [None] * fn.nregs
        for slot, c, w in fn.const_slots: s.template[slot] = I.cval(c, w)
        s.ins = [b.ins for b in fn.blocks]
        s.hdr = [[(h, fn.blocks[h].rpo) for h in b.loops] for b in fn.blocks]
        s.code = [[s.comp(b, i) for i in b.ins] for b in fn.blocks]
        s._live = {}

    def live_at(s, blk, pc):
        k = (blk, pc)
        r = s._live.get(k)
        if r is None:
            b = s.f.blocks[blk]; live = set()
            for x in b.succ:
                # registers used by successors: approximate with live-in of successors via livephi
                live |= set(s.f.livephi[x])
                for p in s.f.blocks[x].phis:
                    if blk in p.x: live.add(p.x[blk])
            for i in b.ins[pc:]:
                live |= set(o for o in i.ops if o is not None)
                if i.op == "gep": live |= set(v[0] for v in i.x[1])
            cs = {c[0] for c in s.f.const_slots}
            r = s._live[k] = sorted(x for x in live - cs)
        return r

    def comp(s, b, I):
        f = getattr(s, "c_" + I.op, s.c_unknown)(b, I)
        if s.I.ct is not None: return s.ctwatch(I, f)
        return f

    def ctwatch(s, I, f):
        """constant-time discipline: conditions, addresses and division operands must not carry the secret label"""
        eng = s.I; op = I.op; bit = eng.ct
        if op == "br" and I.ops: sl = [I.ops[0]]; what = "a branch condition"
        elif op == "switch": sl = [I.ops[0]]; what = "a switch condition"
        elif op == "select": sl = [I.ops[0]]; what = "the condition of a conditional expression"
        elif op == "load": sl = [I.ops[0]]; what = "a memory address (read)"
        elif op == "store": sl = [I.ops[1]]; what = "a memory address (write)"
        elif op in ("udiv", "urem", "sdiv", "srem"): sl = list(I.ops); what = "an operand of a division"
        elif op == "alloca": sl = [I.ops[0]]; what = "the size of an array"
        elif op == "call": sl = [x for x in I.ops if x is not None]; what = "an argument"
        else: return f
        def bad(v):
            if type(v) is P: v = v.off
            return type(v) is T and v.taint & bit
        if op == "call":
            callee = I.x[0]; nm = getattr(callee, "name", "")
            def g(st, r):
                eng.stats["ct_sites"] = eng.stats.get("ct_sites", 0) + 1
                for x in sl:
                    if type(r[x]) is P and bad(r[x]): eng.event(st, "secret-dependent", "the address passed to %s depends on secret bytes" % (nm or "a function"))
                k = eng.ctargs.get(nm)
                if k is None and nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): k = (2,)
                if k is not None:
                    for i in k:
                        if i < len(I.ops) and I.ops[i] is not None and bad(r[I.ops[i]]): eng.event(st, "secret-dependent", "argument %d of %s depends on secret bytes" % (i + 1, nm))
                return f(st, r)
            return g
        def g(st, r):
            eng.stats["ct_sites"] = eng.stats.get("ct_sites", 0) + 1
            for x in sl:
                if bad(r[x]): eng.event(st, "secret-dependent", "%s depends on secret bytes" % what)
            return f(st, r)
        return g

    def c_unknown(s, b, I):
        def f(st, r): raise Limit("unsupported instruction " + I.op)
        return f

    def _bin(f_int, f_term):
        def mk(s, b, I):
            d = I.dst; x, y = I.ops; w = I.w; m = M[w] if w > 0 else 0
            def f(st, r):
                a = r[x]; c = r[y]
                if type(a) is int and type(c) is int: r[d] = f_int(a, c, w) & m
                elif (type(a) is T or type(a) is int) and (type(c) is T or type(c) is int): r[d] = f_term(a, c, w)
                else: r[d] = s.odd(st, I, a, c, w)
            return f
        return mk
    def addr(s, st, p):
        """a pointer as a number: the object's place modulo 256 is unknown (heap blocks: a multiple of 16), the rest is opaque"""
        if type(p) is not P: raise Limit("address of a function or of nothing")
        o = st.mem[p.o]; k = 16 if o.kind == "heap" else 1
        lo = t.sym("place of %s.%s" % (o.name, p.o), 8, range(0, 256, k))
        off = norm(p.off); off = off & 255 if type(off) is int else t.trunc(off, 8)
        return t.cat([(t.add(lo, off, 8), 8), (t.sym("page of %s.%s" % (o.name, p.o), 56), 56)])
    def odd(s, st, I, a, c, w):
        op = I.op
        if a is UND or c is UND:
            if (a is UND and c is UND) or True:
                x = t.fresh(w, tag="undef") if a is UND else a; y = t.fresh(w, tag="undef") if c is UND else c
                if type(x) in (int, T) and type(y) in (int, T):
                    return {"add": t.add, "sub": t.sub, "mul": t.mul, "and": t.band, "or": t.bor, "xor": t.bxor, "shl": t.shl, "lshr": t.lshr,
                            "ashr": t.ashr, "udiv": t.udiv, "urem": t.urem, "sdiv": t.sdiv, "srem": t.srem}[op](x, y, w)
        if op == "sub" and type(a) is P and type(c) is P:
            if a.o == c.o: return t.sub(norm(a.off), norm(c.off), 64)
            return t.fresh(64, tag="ptrdiff")
        if op == "add":
            if type(a) is P and type(c) in (int, T): return P(a.o, padd(a.off, c))
            if type(c) is P and type(a) in (int, T): return P(c.o, padd(c.off, a))
        if op == "sub" and type(a) is P and type(c) in (int, T): return P(a.o, padd(a.off, t.neg(c, 64)))
        if w == 64 and type(a) is P and type(c) is int and ((op == "and" and c <= 255) or (op == "urem" and 0 < c <= 256 and c & (c - 1) == 0)):
            return t.band(s.addr(st, a), c if op == "and" else c - 1, 64)
        if op in ("or", "xor") and w == 64 and (type(a) is P or type(c) is P):
            return (t.bor if op == "or" else t.bxor)(s.addr(st, a) if type(a) is P else a, s.addr(st, c) if type(c) is P else c, w)
        raise Limit("pointer arithmetic %s" % op)
    c_add = _bin(lambda a, b, w: a + b, t.add)
    c_sub = _bin(lambda a, b, w: a - b, t.sub)
    c_mul = _bin(lambda a, b, w: a * b, t.mul)
    c_and = _bin(lambda a, b, w: a & b, t.band)
    c_or = _bin(lambda a, b, w: a | b, t.bor)
    c_xor = _bin(lambda a, b, w: a ^ b, t.bxor)
    c_shl = _bin(lambda a, b, w: a << b if b < w else 0, t.shl)
    c_lshr = _bin(lambda a, b, w: a >> b if b < w else 0, t.lshr)
    c_ashr = _bin(t.ashr, t.ashr)
    c_udiv = _bin(t.cudiv, t.udiv)
    c_urem = _bin(t.curem, t.urem)
    c_sdiv = _bin(t.csdiv, t.sdiv)
    c_srem = _bin(t.csrem, t.srem)

    def c_trunc(s, b, I):
        d = I.dst; x = I.ops[0]; w = I.w; m = M[w]; log = s.I.cmplog; w0 = I.w2
        def f(st, r):
            a = r[x]
            if type(a) is int:
                r[d] = a & m
                if log is not None: log.append(("trunc", a, w0, w))
            elif type(a) is T: r[d] = t.trunc(a, w)
            elif a is UND: r[d] = UND
            elif type(a) is P: r[d] = t.trunc(s.addr(st, a), w)
            else: raise Limit("trunc of pointer")
        return f
    def c_zext(s, b, I):
        d = I.dst; x = I.ops[0]; w = I.w; w2 = I.w2
        def f(st, r):
            a = r[x]
            r[d] = a if type(a) is int else (t.cat([(a, w2), (0, w - w2)]) if type(a) is T else a)
        return f
    def c_sext(s, b, I):
        d = I.dst; x = I.ops[0]; w = I.w; w2 = I.w2
        def f(st, r):
            a = r[x]; r[d] = t.sext(a, w2, w) if type(a) in (int, T) else a
        return f
    def c_copy(s, b, I):
        d = I.dst; x = I.ops[0]
        def f(st, r): r[d] = r[x]
        return f
    c_ptrtoint = c_inttoptr = c_bitcast = c_freeze = c_addrspacecast = c_copy

    def c_icmp(s, b, I):
        d = I.dst; x, y = I.ops; p = I.x; w = I.w2; sgn = p[0] == "s"; h = 1 << (w - 1)
        import operator
        cmpf = {"eq": operator.eq, "ne": operator.ne, "ult": operator.lt, "ule": operator.le, "ugt": operator.gt, "uge": operator.ge,
                "slt": operator.lt, "sle": operator.le, "sgt": operator.gt, "sge": operator.ge}[p]
        log = s.I.cmplog
        def f(st, r):
            a = r[x]; c = r[y]
            if log is not None and type(a) is P and type(c) is P and a.o == c.o and type(a.off) is int and type(c.off) is int:
                log.append((p, a.off & M[64], c.off & M[64], 64))
            if type(a) is int and type(c) is int:
                r[d] = 1 if (cmpf(a ^ h, c ^ h) if sgn else cmpf(a, c)) else 0
                if log is not None: log.append((p, a, c, w))
            elif type(a) in (int, T) and type(c) in (int, T):
                if st.rng and type(a) is T and type(c) is int and a.sym is None:
                    # a recorded range may settle the comparison before it is turned into boolean structure
                    k = a
                    if k.op == "cat" and len(k.a) == 2 and type(k.a[1][0]) is int and k.a[1][0] == 0 and type(k.a[0][0]) is T: k = k.a[0][0]
                    q = st.rng.get(k)
                    if q is not None and (not sgn or (q[1] < h and c < h)):
                        lo, hi = q; v = None
                        if p == "eq" or p == "ne":
                            if c < lo or c > hi: v = 0
                            elif lo == hi == c: v = 1
                            if v is not None and p == "ne": v = 1 - v
                        else:
                            x0 = cmpf(lo, c); x1 = cmpf(hi, c)
                            if x0 == x1: v = int(x0)
                        if v is not None: r[d] = v; return
                r[d] = t.icmp(p, a, c, w)
            else: r[d] = s.pcmp(st, p, a, c, w)
        return f
    def pcmp(s, st, p, a, c, w):
        if a is UND or c is UND: return t.fresh(1, tag="undefcmp")
        if type(a) is P and type(c) is P:
            if a.o == c.o:
                x, y = norm(a.off), norm(c.off)
                if p in ("eq", "ne"): return t.icmp(p, x, y, 64)
                # same object: offsets are compared (biased so one-past and small negatives order correctly)
                if type(x) is int and type(y) is int: return t.icmp({"u": "s"}.get(p[0], p[0]) + p[1:], x, y, 64)
                return t.icmp(p, t.add(x, 1 << 40, 64), t.add(y, 1 << 40, 64), 64)
            if p == "eq": return 0
            if p == "ne": return 1
            return t.fresh(1, tag="ptrcmp")
        if isinstance(a, (P, FP)) and c == 0 and type(c) is int: return {"eq": 0, "ne": 1, "ugt": 1, "uge": 1, "ult": 0, "ule": 0}.get(p, 1)
        if isinstance(c, (P, FP)) and a == 0 and type(a) is int: return {"eq": 0, "ne": 1, "ugt": 0, "uge": 0, "ult": 1, "ule": 1}.get(p, 1)
        if type(a) is FP and type(c) is FP: return (1 if a == c else 0) if p == "eq" else (0 if a == c else 1)
        if p == "eq": return t.fresh(1, tag="ptrcmp")
        return t.fresh(1, tag="ptrcmp")

    def c_select(s, b, I):
        d = I.dst; c, x, y = I.ops; w = I.w
        def f(st, r):
            k = r[c]
            if type(k) is int: r[d] = r[x] if k else r[y]; return
            if k is UND: k = t.fresh(1, tag="undef")
            v = s.I.decide(st, k)
            if v is not None: r[d] = r[x] if v else r[y]; return
            a, e = r[x], r[y]
            if type(a) in (int, T) and type(e) in (int, T) and w > 0: r[d] = t.ite(k, a, e, w); return
            if a == e: r[d] = a; return
            # pointers: partition
            o = st.clone(); out = []
            for n, v in ((st, 1), (o, 0)):
                if s.I.assume(n, k, v):
                    fr = n.frames[-1]; fr.regs[d] = fr.regs[x] if v else fr.regs[y]; fr.pc += 1; out.append(n)
            s.I.stats["forks"] += 1
            return out
        return f

    def c_gep(s, b, I):
        d = I.dst; x = I.ops[0]; coff, var = I.x
        def f(st, r):
            p = r[x]; off = coff
            for i, w, sc in var:
                v = r[i]
                if type(v) is int:
                    if v >> (w - 1): v -= 1 << w
                    off += v * sc if type(off) is int else 0
                    if type(off) is not int: raise Limit("gep")
                elif type(v) is T:
                    if w < 64: v = t.sext(v, w, 64)
                    v = t.mul(v, sc & M[64], 64)
                    off = t.add(norm(off), v, 64)
                else: raise Limit("gep index")
            if type(p) is P: r[d] = p if (type(off) is int and off == 0) else P(p.o, padd(p.off, off))
            elif type(p) is int and p == 0 and type(off) is int: r[d] = off & M[64]
            elif type(p) is int and type(off) is int: r[d] = (p + off) & M[64]
            elif p is UND: r[d] = UND
            else: raise Limit("gep base")
        if not var:
            def f(st, r):
                p = r[x]
                if type(p) is P: r[d] = P(p.o, p.off + coff if type(p.off) is int else padd(p.off, coff))
                elif type(p) is int: r[d] = (p + coff) & M[64]
                elif p is UND: r[d] = UND
                else: raise Limit("gep base")
        return f

    def c_alloca(s, b, I):
        d = I.dst; cnt = I.ops[0]; sz, nm = I.x
        def f(st, r):
            c = r[cnt]
            if type(c) is not int:
                res = s.I.split(st, c)
                if res is None: raise Limit("vla size")
                out = []
                for n, v in res:
                    n.frames[-1].regs[cnt] = v; out.append(n)
                return out
            o = st.new_obj("%s.%s" % (s.f.name, nm or "tmp"), sz * c, "stack")
            st.frames[-1].allocas.append(o.id); r[d] = P(o.id, 0)
        return f

    def c_load(s, b, I):
        d = I.dst; x = I.ops[0]; n = I.x; w = I.w; eng = s.I
        def f(st, r):
            try: v = eng.load(st, r[x], n)
            except ForkLoad as e: return s.refork(e, x)
            if w < 8 * n and type(v) in (int, T): v = (v & M[w]) if type(v) is int else t.trunc(v, w)
            r[d] = v
        return f
    def refork(s, e, slot):
        out = []
        for n, p in e.alts:
            if n.end is None and p is not None: n.frames[-1].regs[slot] = p
            out.append(n)
        return out

    def c_store(s, b, I):
        v, x = I.ops; n = I.x; eng = s.I; vol = I.vol; w = I.w
        def f(st, r):
            val = r[v]
            if 0 < w < 8 * n and type(val) is T: val = t.zext(val, w, 8 * n)
            try: eng.store(st, r[x], val, n)
            except ForkLoad as e: return s.refork(e, x)
            if vol and eng.track_secret and type(r[x]) is P:
                o = st.wobj(r[x].o)
                if o.pend:
                    for k in range(r[x].off, r[x].off + n):
                        if k in o.pend: o.pend.discard(k); o.dirty.pop(k, None)
        return f

    def goto(s, st, fr, frm, to):
        """take the edge frm->to: evaluate phis, update loop counters"""
        blk = s.f.blocks[to]
        if blk.phis:
            regs = fr.regs
            vals = [regs[p.x[frm]] for p in blk.phis]
            for p, v in zip(blk.phis, vals): regs[p.dst] = v
        if to in s.f.loops:
            if (frm, to) in s.f.back:
                k = fr.it.get(to, 0) + 1; fr.it[to] = k
                if k > s.I.max_iter: raise Limit("loop iteration limit")
                if s.I.accel is not None: s.I.accel(s.I, st, fr, s, to, k)
            else: fr.it[to] = 0
        fr.blk = to; fr.pc = 0

    def c_br(s, b, I):
        bi = b.idx
        if not I.ops:
            to = I.x[0]
            def f(st, r):
                s.goto(st, st.frames[-1], bi, to); return [st]
            return f
        c = I.ops[0]; tt, ff = I.x; eng = s.I
        def f(st, r):
            k = r[c]
            if type(k) is int: s.goto(st, st.frames[-1], bi, tt if k else ff); return [st]
            if k is UND: eng.event(st, "uninit", "branch on uninitialised value")
            v = eng.decide(st, k)
            if v is not None: s.goto(st, st.frames[-1], bi, tt if v else ff); return [st]
            eng.stats["forks"] += 1
            o = st.clone(); out = []
            if eng.assume(st, k, 1): s.goto(st, st.frames[-1], bi, tt); out.append(st)
            if eng.assume(o, k, 0): s.goto(o, o.frames[-1], bi, ff); out.append(o)
            return out
        return f

    def c_switch(s, b, I):
        c = I.ops[0]; dflt, cases = I.x; bi = b.idx; w = I.w; eng = s.I
        def f(st, r):
            k = r[c]
            if k is UND: eng.event(st, "uninit", "switch on uninitialised value")
            if type(k) is int:
                for v, to in cases:
                    if v == k: s.goto(st, st.frames[-1], bi, to); return [st]
                s.goto(st, st.frames[-1], bi, dflt); return [st]
            out = []
            for v, to in cases:
                cond = t.eq(k, v, w); d = eng.decide(st, cond)
                if d == 0: continue
                o = st.clone()
                if eng.assume(o, cond, 1) and eng.set_rng(o, k, v, v):
                    s.goto(o, o.frames[-1], bi, to); out.append(o)
                if d == 1: return out
                if not eng.assume(st, cond, 0): return out
            s.goto(st, st.frames[-1], bi, dflt); out.append(st)
            eng.stats["forks"] += len(out) - 1
            return out
        return f

    def c_unreachable(s, b, I):
        def f(st, r): raise Stop("unreachable")
        return f

    def c_ret(s, b, I):
        eng = s.I; x = I.ops[0] if I.ops else None
        def f(st, r):
            v = r[x] if x is not None else None
            return eng.do_ret(st, v)
        return f

    def c_extractvalue(s, b, I):
        d = I.dst; x = I.ops[0]; ix = I.x
        def f(st, r):
            v = r[x]
            for i in ix: v = v[i]
            r[d] = v
        return f

    def c_call(s, b, I):
        callee, ws = I.x; eng = s.I; d = I.dst; args = I.ops
        if type(callee) is AsmRef:
            txt = callee.text
            def f(st, r):
                if "~{memory}" in txt and "sideeffect" in txt: eng.barrier(st, [r[a] for a in args])
                # an empty template touches nothing
                r[d] = 0
            return f
        if type(callee) is FRef and callee.name.startswith("llvm."):
            return s.intrinsic(callee.name, I, d, args, ws)
        # a call through a pointer read with a volatile load cannot be recognised, hence not removed
        volfn = type(callee) is int and any(i.op == "load" and i.dst == callee and i.vol for bb in s.f.blocks for i in bb.ins)
        def f(st, r):
            nm = callee
            if type(nm) is int: nm = r[nm]
            if type(nm) is FRef or type(nm) is FP: nm = nm.name
            else: raise Limit("indirect call")
            eng.stats["calls"] += 1
            av = [r[a] if a is not None else None for a in args]
            mdl = eng.models.get(nm)
            if mdl is not None:
                eng.callw = ws
                try: res = mdl(eng, st, av, I)
                except ForkArg as e:
                    out = []
                    for n, v in e.alts:
                        if n.end is None and v is not None: n.frames[-1].regs[args[e.i]] = v
                        out.append(n)
                    return out
                if type(res) is list:
                    out = []
                    for n, v in res:
                        if n.end is None: n.frames[-1].regs[d] = v; n.frames[-1].pc += 1
                        out.append(n)
                    return out
                r2 = st.frames[-1].regs; r2[d] = res
                if volfn and eng.track_secret and nm in ("memset", "bzero") and type(av[0]) is P:
                    o = st.wobj(av[0].o)
                    if o.pend:
                        n = av[2 if nm == "memset" else 1]
                        for k in [k for k in o.pend if av[0].off <= k < av[0].off + n]: o.pend.discard(k); o.dirty.pop(k, None)
                return None
            fn = eng.mod.funcs.get(nm)
            if fn is None or fn.decl:
                eng.unmodelled.add(nm)
                raise Limit("call to unmodelled external function " + nm)
            eng.push(st, fn, av, d)
            return CONT
        return f

    def intrinsic(s, nm, I, d, args, ws):
        eng = s.I
        if nm.startswith(("llvm.dbg", "llvm.lifetime", "llvm.va_", "llvm.assume", "llvm.stack", "llvm.prefetch", "llvm.donothing", "llvm.experimental.noalias")):
            def f(st, r): r[d] = 0
            return f
        if nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            setp = "memset" in nm
            vol = args[3]
            def f(st, r):
                n = r[args[2]]
                if type(n) is not int:
                    if n is UND: eng.event(st, "uninit", "length")
                    res = eng.split(st, n)
                    if res is None:
                        eng.note_unproven(st, "copy length not bounded"); raise Limit("symbolic length")
                    out = []
                    for ns, v in res:
                        ns.frames[-1].regs[args[2]] = v; out.append(ns)
                    return out
                try:
                    if setp: eng.memset(st, r[args[0]], r[args[1]], n)
                    else: eng.memcpy(st, r[args[0]], r[args[1]], n)
                except ForkArg as e:
                    out = []
                    for n2, v in e.alts:
                        if n2.end is None and v is not None: n2.frames[-1].regs[args[e.i]] = v
                        out.append(n2)
                    return out
                if setp and eng.track_secret and r[vol] == 1 and n:
                    o = st.wobj(r[args[0]].o)
                    if o.pend:
                        for k in range(r[args[0]].off, r[args[0]].off + n):
                            if k in o.pend: o.pend.discard(k); o.dirty.pop(k, None)
                return None
            return f
        if nm.startswith("llvm.bswap"):
            w = I.w
            def f(st, r):
                v = r[args[0]]
                if v is UND: r[d] = UND; return
                r[d] = int.from_bytes(v.to_bytes(w // 8, "little"), "big") if type(v) is int else t.cat([(t.ext(v, w - 8 - 8 * i, 8), 8) for i in range(w // 8)])
            return f
        if nm.startswith("llvm.threadlocal.address"):
            def f(st, r): r[d] = r[args[0]]
            return f
        if nm.startswith("llvm.expect"):
            def f(st, r): r[d] = r[args[0]]
            return f
        if nm.startswith(("llvm.fshl", "llvm.fshr")):
            w = I.w; left = "fshl" in nm
            def f(st, r):
                a, c, k = r[args[0]], r[args[1]], r[args[2]]
                if type(k) is not int: raise Limit("symbolic funnel shift")
                k %= w
                if left: r[d] = a if k == 0 else t.bor(t.shl(a, k, w), t.lshr(c, w - k, w), w)
                else: r[d] = c if k == 0 else t.bor(t.shl(a, w - k, w), t.lshr(c, k, w), w)
            return f
        if nm.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            w = I.w; p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[nm[5:9]]
            def f(st, r):
                a, c = r[args[0]], r[args[1]]; k = t.icmp(p, a, c, w)
                r[d] = t.ite(k, a, c, w)
            return f
        if nm.startswith("llvm.abs"):
            w = I.w
            def f(st, r):
                a = r[args[0]]; r[d] = t.ite(t.slt(a, 0, w), t.neg(a, w), a, w)
            return f
        if ".with.overflow" in nm:
            def f(st, r):
                a, c = r[args[0]], r[args[1]]; w = ws[0]
                if nm.startswith("llvm.uadd"): v = t.add(a, c, w); o = t.ult(v, a, w)
                elif nm.startswith("llvm.usub"): v = t.sub(a, c, w); o = t.ult(a, c, w)
                elif nm.startswith("llvm.umul") and type(a) is int and type(c) is int: v = (a * c) & M[w]; o = 1 if a * c > M[w] else 0
                else: raise Limit(nm)
                r[d] = (v, o)
            return f
        if nm.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
            w = I.w
            def g(v):
                if "ctpop" in nm: return bin(v).count("1")
                if v == 0: return w
                return w - v.bit_length() if "ctlz" in nm else (v & -v).bit_length() - 1
            def f(st, r):
                v = r[args[0]]
                if type(v) is int: r[d] = g(v)
                elif v.sym is not None: r[d] = t.from_table(v.sym, [g(k) for k in t.table(v, v.sym)], w)
                else: raise Limit(nm)
            return f
        if nm.startswith(("llvm.trap", "llvm.ubsantrap")):
            def f(st, r): raise Stop("abort", "trap")
            return f
        def f(st, r): raise Limit("intrinsic " + nm)
        return f

def _do_ret(s, st, v):
    fr = st.frames[-1]
    if s.track_secret and fr.fn.f.name in s.wipers:
        # what the library's wipe overwrote stays overwritten (C20 decides the primitive)
        p, n = fr.regs[0], fr.regs[1]
        o = st.mem.get(p.o) if type(p) is P else None
        if o is not None and o.pend and type(n) is int and type(p.off) is int:
            o = st.wobj(p.o)
            for k in [k for k in o.pend if p.off <= k < p.off + n]: o.pend.discard(k); o.dirty.pop(k, None)
    for oid in fr.allocas:
        o = st.wobj(oid); o.alive = False
        s.release(st, o); o.cells = {}; o.dirty = None; o.pend = None
        if o.meta != "keep": del st.mem[oid]
    if len(st.frames) == 1:
        st.rv = v; st.end = "ret"; st.trace = s.loc(st); st.frames = st.frames[:0]
        return [st]
    d = fr.ret; st.frames.pop()
    c = st.frames[-1]
    if v is not None: c.regs[d] = v
    c.pc += 1
    return CONT
Interp.do_ret = _do_ret

def norm(off):
    return off & M[64] if type(off) is int else off
def padd(a, b):
    if type(a) is int and type(b) is int:
        r = (a + b) & M[64]; return r - (1 << 64) if r >> 63 else r
    r = t.add(norm(a), norm(b), 64)
    if type(r) is int: return r - (1 << 64) if r >> 63 else r
    return r
