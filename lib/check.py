"""Check framework: a property is a list of cases; a case analyses one entry point over a
partition of its inputs and states what every final abstract state must satisfy."""
import os, sys, json, time, tempfile, traceback, shutil, hashlib, signal, multiprocessing
import terms as t
from terms import T, M
import llvmir, libc, secp
from llvmir import AnalysisError
from interp import Interp, P, FP, UND, Limit, Stop

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
DEADLINE = 720.0

class Env(object):
    """inputs of one analysed call; `pin` turns symbols into constants (singleton partition)"""
    def __init__(s, I, st, pin=None):
        s.I = I; s.st = st; s.pin = pin; s.used = {}; s.data = {}
    def sy(s, name, dom=None, taint=0):
        name = t.PHASE[0] + name
        if s.pin is not None and name in s.pin: return s.pin[name]
        v = t.sym(name, 8, dom, taint=taint)
        if type(v) is T: s.used[name] = v
        return v
    def num(s, name, w, lo=0, hi=None, taint=0):
        """integer argument known to lie in [lo,hi]"""
        hi = M[w] if hi is None else hi
        if s.pin is not None and t.PHASE[0] + name in s.pin: return s.pin[t.PHASE[0] + name]
        if lo == hi: return lo
        if w == 8: return s.sy(name, range(lo, hi + 1), taint)
        name = t.PHASE[0] + name
        v = t.sym(name, w, None, lo, hi, taint=taint); s.used[name] = v
        return v
    def input(s, name, n, dom=None, doms=None, taint=0, ro=True, kind="input", vals=None):
        """object of n symbolic bytes; per-byte value sets from doms / dom"""
        o = s.st.new_obj(name, n, kind, None, ro)
        v = []
        for i in range(n):
            if vals is not None and vals[i] is not None: x = vals[i]
            else:
                d = doms[i] if doms is not None and doms[i] is not None else dom
                x = s.sy("%s[%d]" % (name, i), d, taint)
            o.cells[i] = x; v.append(x)
        s.data[name] = v
        return P(o.id, 0)
    def lazy(s, name, n, k=53):
        """read-only object of n bytes, any n: byte i is symbol i mod k"""
        sy = [s.sy("%s[%d]" % (name, i)) for i in range(min(n, k))]
        o = s.st.new_obj(name, n, "input", lambda off: sy[off % k], True)
        return P(o.id, 0), lambda i: sy[i % k]
    def cyc(s, name, n, k=53, dom=None):
        """n byte values repeating k symbols (very long inputs)"""
        sy = [s.sy("%s[%d]" % (name, i), dom) for i in range(min(n, k))]
        return [sy[i % k] for i in range(n)]
    def inout(s, name, n, **kw): return s.input(name, n, ro=False, kind="out", **kw)
    def const(s, name, data):
        o = s.st.new_obj(name, len(data), "input", None, True)
        for i, c in enumerate(data): o.cells[i] = c
        s.data[name] = list(data)
        return P(o.id, 0)
    def output(s, name, n):
        o = s.st.new_obj(name, n, "out"); return P(o.id, 0)
    def word(s, name, nbytes, dom=None, taint=0):
        """little-endian integer argument made of byte symbols"""
        v = [s.sy("%s[%d]" % (name, i), dom[i] if dom else None, taint) for i in range(nbytes)]
        s.data[name] = v
        return t.cat([(x, 8) for x in v])

class Out(object):
    """obligations of one final state"""
    def __init__(s, st, env): s.st = st; s.env = env; s.obl = []; s.viol = []; s.n = 0
    def eq(s, label, got, want, w=8, loc=None):
        s.n += 1
        if type(want) is T or type(want) is int:
            if got is None: s.viol.append((label, "not written (expected %s)" % t.show(want) if type(want) is T else "not written", loc, None)); return
            if got is UND: s.viol.append((label, "undefined value", loc, None)); return
            if type(got) is tuple or isinstance(got, (P, FP)): s.viol.append((label, "pointer value instead of data", loc, None)); return
            if got is want or (type(got) is int and got == want): return
            s.obl.append((label, got, want, w, loc))
        else:
            if got is want or got == want: return
            s.viol.append((label, "is %r instead of %r" % (got, want), loc, None))
    def bytes(s, label, p, want, off=0):
        oid = p.o if type(p) is P else p
        o = s.st.mem.get(oid)
        base = p.off if type(p) is P else 0
        for i, wv in enumerate(want):
            k = base + off + i
            got = s.st.rd(oid, k)
            loc = o.meta.get(k) if type(o.meta) is dict else None
            if wv is None:
                s.n += 1
                if got is not None: s.viol.append(("%s[%d]" % (label, i), "written but must stay untouched", loc, None))
                continue
            s.eq("%s[%d]" % (label, i), got, wv, 8, loc)
    def untouched(s, label, p, frm, to, orig=None):
        oid = p.o if type(p) is P else p
        o = s.st.mem.get(oid)
        for k in range(frm, to):
            got = s.st.rd(oid, k); s.n += 1
            want = None if orig is None else orig[k]
            if got is want or (type(got) is int and got == want): continue
            loc = o.meta.get(k) if type(o.meta) is dict else None
            if want is None: s.viol.append(("%s[%d]" % (label, k), "written but must stay untouched", loc, None))
            else: s.eq("%s[%d]" % (label, k), got, want, 8, loc)
    def ret(s, want, w=64, label="return value"):
        rv = s.st.rv
        s.eq(label, rv, want, w, s.st.trace)
    def truth(s, want, w=32, label="status"):
        """return value is (non)zero"""
        rv = s.st.rv; s.n += 1
        if rv is UND or rv is None or not type(rv) in (int, T):
            s.viol.append((label, "undefined", s.st.trace, None)); return
        c = t.ne(rv, 0, w)
        if type(c) is int and type(want) is int:
            if c != want: s.viol.append((label, "reports %s instead of %s" % ("success" if c else "failure", "success" if want else "failure"), s.st.trace, None))
            return
        if type(want) is int or want is not c: s.obl.append((label, c, want, 1, s.st.trace))
    def fail(s, label, msg, loc=None): s.n += 1; s.viol.append((label, msg, loc, None))
    def ok(s, n=1): s.n += n

# ----------------------------------------------------------------- facts and witnesses
def solved(conds):
    fixed = {}
    def dep(x, y):
        """does y contain x"""
        seen = set(); q = [y]
        while q:
            z = q.pop()
            if z is x: return True
            if type(z) is not T or z in seen: continue
            seen.add(z); q.extend(t._children(z))
            for k in (fixed.get(z),):
                if k is not None: q.append(k)
        return False
    for c, v in conds.items():
        if c.op == "uf" or c.op == "sym":
            fixed[c] = v; continue
        if c.op == "eq" and v == 1:
            a, b = c.a
            for x, y in ((a, b), (b, a)):
                if type(x) is T and x.op == "sym" and x not in fixed and not dep(x, y): fixed[x] = y; break
            else:
                for x, y in ((a, b), (b, a)):
                    if type(x) is T and x.op == "uf" and x not in fixed and not dep(x, y): fixed[x] = y; break
    return fixed
def sampler(st, n, seed, env=None):
    fx = solved(st.conds)
    for v, c in getattr(env, 'defs', {}).items(): fx[c] = v
    rg = {}
    for k, (l, h) in st.rng.items():
        if k.op == "sym": rg[k] = (max(l, k.lo), min(h, k.hi))
    S = t.Sampler(n, seed, st.masks, fx, rg)
    return S
def valid(S, st):
    ok = [True] * S.n
    for c, v in st.conds.items():
        e = S.ev(c)
        for i in range(S.n):
            if ok[i] and int(e[i]) != v: ok[i] = False
    for k, (l, h) in st.rng.items():
        e = S.ev(k)
        for i in range(S.n):
            if ok[i] and not l <= int(e[i]) <= h: ok[i] = False
    for sy, m in st.masks.items():
        e = S.ev(sy)
        for i in range(S.n):
            if ok[i] and not (m >> int(e[i])) & 1: ok[i] = False
    return ok
def valuation(S, st, i, env, extra=()):
    out = {}
    for name, sy in env.used.items():
        out[name] = int(S.ev(sy)[i])
    return out

def masked_equal(st, a, b):
    """equal once the byte's feasible values are taken into account"""
    s = t.symof(a, b) if type(a) is T else (b.sym if type(b) is T else None)
    if type(a) is T and type(b) is int: s = a.sym
    if s is None: return None
    m = st.masks.get(s)
    ta = t.table(a, s); tb = t.table(b, s)
    for v, x, y in zip(s.tab, ta, tb):
        if x != y and (m is None or (m >> v) & 1): return False
    return True

def announced(I, x):
    """(state, value) pairs of an integer return value: the value set is split when it is not constant"""
    if type(x.rv) is int: return [(x, x.rv)]
    r = I.split(x, x.rv) if type(x.rv) is T else None
    if r is None: raise Limit("announced length not bounded")
    return r

class Case(object):
    def __init__(s, label, fn, build, spec, **kw):
        s.label = label; s.fn = fn; s.build = build; s.spec = spec; s.kw = kw

def sequence(a, b):
    """case b after an earlier call as in case a: whatever the library keeps from one call to the next must not matter"""
    kw = dict(b.kw); ma = a.kw.get("models") or {}; mb = b.kw.get("models") or {}
    if a.kw.get("pre") is not b.kw.get("pre") or (a.kw.get("opts") or {}) != (b.kw.get("opts") or {}) or any(ma[k] is not mb[k] for k in ma if k in mb): return None
    kw["models"] = dict(ma, **mb); kw["cost"] = max(a.kw.get("cost", 1), b.kw.get("cost", 1)); kw["time"] = min(kw.get("time", 120), 120); kw["must_return"] = False
    kw.pop("after", None)
    norm = lambda c, r: r if type(r) is list and r and type(r[0]) is tuple else [(c.fn, r)]
    def build(env):
        env.log0 = list(env.st.log); env.tags0 = dict(env.st.tags)
        t.PHASE[0] = "earlier "
        try: one = norm(a, a.build(env))
        finally: t.PHASE[0] = ""
        env.data = {}
        two = norm(b, b.build(env))
        env.phase = len(one)
        return one + two
    return Case("%s, after %s" % (b.label, a.label), b.fn, build, b.spec, **kw)
def sequences(cases, limit=40):
    """for every function: a later call after others of the same function (smaller, larger, equal sizes) and after one of another function"""
    g = {}
    for c in cases:
        if isinstance(c, Case) and isinstance(c.fn, str) and not c.kw.get("noseq") and not c.fn.startswith(("w_", "fingera_btc_key_init", "fingera_btc_key_uninit")): g.setdefault(c.fn, []).append(c)
    out = []; last = None; k = max(3, limit // max(1, len(g)) - 1)
    for fn in sorted(g):
        l = sorted(g[fn], key=lambda c: (c.kw.get("cost", 1), c.label)); n = len(l)
        q = [(n * x // 12, n * y // 12) for x, y in ((4, 8), (8, 4), (6, 6), (1, 5), (5, 1), (7, 2), (3, 9), (9, 3), (2, 2), (0, 6))]
        for x, y in list(dict.fromkeys(q))[:k]:
            z = sequence(l[x], l[y])
            if z: out.append(z)
        if last:
            z = sequence(last, l[n // 2])
            if z: out.append(z)
        last = l[n // 3]
    return out[:limit + 20]

class Result(object):
    def __init__(s):
        s.obl = 0; s.ident = 0; s.rand = 0; s.und = []; s.viol = []; s.paths = 0; s.stats = {}; s.funcs = set(); s.labels = []; s.cases = 0; s.notes = []; s.wall = 0
    def d(s): return s.__dict__

class Analysis(object):
    """runs inside one worker; collects the result of one case"""
    def __init__(s, mod, deadline): s.mod = mod; s.res = Result(); s.deadline = deadline; s.nsamp = 24; s.refine = 0; s.soft = []

    def interp(s, kw):
        models = dict(libc.MODELS); models.update(secp.MODELS); models.update(kw.get("models") or {})
        I = Interp(s.mod, models)
        for k, v in (kw.get("opts") or {}).items(): setattr(I, k, v)
        I.deadline = s.deadline
        if s.refine == 1: I.exact_join = True
        elif s.refine == 2: I.merge = False
        return I

    def exec(s, case, pin=None):
        t.PHASE[0] = ""
        I = s.interp(case.kw)
        if pin is not None: I.merge = False
        st = I.initial(); env = Env(I, st, pin)
        env.case = case
        if 'spec' in sys.modules: sys.modules['spec'].CUT = None
        if case.kw.get("pre"):
            st2 = case.kw["pre"](I, st, env)
            if st2 is not None: st = env.st = st2
        args = case.build(env)
        calls = args if type(args) is list and args and type(args[0]) is tuple else [(case.fn, args)]
        states = [st]; ph = getattr(env, "phase", 0)
        for k, (fn, a) in enumerate(calls):
            nxt = []
            if ph:
                t.PHASE[0] = "earlier " if k < ph else ""
                if k == ph:
                    for x in states:
                        if x.end != "ret" and x.end is not None: x.end = "cut"
                        x.log = list(env.log0); x.tags = dict(env.tags0)
            for x in states:
                if x.end not in (None, "ret"): nxt.append(x); continue
                x.end = None
                for y, b in (a(env, x, I) if callable(a) else [(x, a)]): nxt += I.call(y, fn, b)
            states = nxt
        t.PHASE[0] = ""
        return I, env, states

    def judge(s, case, I, env, st, final=False):
        """violations of one final state as a list of (kind, label, text, loc, witness-valid?)"""
        out = []
        ends = case.kw.get("ends", ("ret",))
        if st.end == "cut": return out, 0
        if st.end == "event":
            e = st.events[-1]
            return [("event", e["kind"], "%s (%s)" % (e["detail"], e["chain"]), (e["func"], e["file"], e["line"]))], 1
        if st.end == "assert" and "assert" not in ends:
            return [("assert", "assertion", "assertion can fail: %s" % st.rv, None)], 1
        o = Out(st, env)
        if st.end not in ends:
            return [("end", "termination", "path ends with %s %s" % (st.end, st.rv), None)], 1
        case.spec(env, st, o)
        return [("spec", l, m, loc) for l, m, loc, w in o.viol], o

    def run(s, case):
        """analyse; where a mismatch lies on a joined state and no witness confirms it, refine the
        partition (exact joins, then no joins) and analyse again"""
        r = s.res; r.cases += 1
        r.labels.append(case.label)
        for s.refine in (0, 1, 2):
            s.soft = []; n0 = len(r.und); v0 = len(r.viol); b4 = (r.obl, r.ident, r.rand)
            s.once(case)
            soft = s.soft; s.soft = []
            if not soft: break
            if len(r.viol) > v0: break
            hard_und = len(r.und) > n0
            if s.refine == 2 or hard_und or case.kw.get("nopin"): r.und.extend(soft); break
            keep = (r.obl, r.ident, r.rand); r.obl, r.ident, r.rand = b4; s.kept = (keep, soft)
        s.refine = 0

    def once(s, case):
        r = s.res
        try: I, env, states = s.exec(case)
        except Limit as e:
            if s.refine:
                (r.obl, r.ident, r.rand), soft = s.kept; r.und.extend(soft)
            r.und.append("%s: analysis bound%s: %s" % (case.label, " (refinement %d)" % s.refine if s.refine else "", e)); return
        r.funcs |= I.covered
        for k, v in I.stats.items(): r.stats[k] = r.stats.get(k, 0) + v
        nv = 0; pending = []
        seen_ret = 0
        for st in states:
            r.paths += 1
            if nv >= 6: break
            if st.end == "cut": continue
            if st.end == "ret": seen_ret += 1
            vs, o = s.judge(case, I, env, st)
            n = o if type(o) is int else o.n
            r.obl += n
            if vs:
                S = sampler(st, 64, SEED, env); ok = valid(S, st)
                w = next((i for i in range(S.n) if ok[i]), None)
                r.ident += max(0, n - len(vs))
                nv += s.alarm(case, env, st, S, w, vs)
            if type(o) is int or not o.obl:
                if not vs: r.ident += n
                continue
            nv += s.resolve(case, I, env, st, o)
        if case.kw.get("must_return", True) and "ret" in case.kw.get("ends", ("ret",)) and not seen_ret and not r.viol and not r.und:
            r.und.append("%s: no returning path" % case.label)
        if case.kw.get("after"): case.kw["after"](I, env, states, r)

    def resolve(s, case, I, env, st, o):
        r = s.res; rest = []; alt = set()
        for ob in o.obl:
            label, got, want, w, loc = ob
            m = masked_equal(st, got, want)
            if m is True: r.ident += 1
            else: rest.append(ob)
        r.ident += o.n - len(o.obl) - len(o.viol)
        if not rest: return 0
        bad = []
        S = sampler(st, s.nsamp, SEED, env); ok = valid(S, st)
        if not any(ok):
            S = sampler(st, 600, SEED + 1, env); ok = valid(S, st)
        if not any(ok):
            r.und.append("%s: path facts could not be instantiated for %d value(s)" % (case.label, len(rest))); return 0
        for label, got, want, w, loc in rest:
            a = S.ev(got); b = S.ev(want)
            il = [i for i in range(S.n) if ok[i] and int(a[i]) != int(b[i])]
            if not il: r.rand += 1
            else:
                i = il[0]; bad.append((i, label, int(a[i]), int(b[i]), loc, got, want)); alt |= set(il)
        if not bad:
            hit = s.aim(I, env, st, rest)
            if hit:
                S, i, vs = hit; return s.alarm(case, env, st, S, i, vs)
            return 0
        i = bad[0][0]
        vs = [("spec", l, "is 0x%x where 0x%x is required" % (a, b), loc) for j, l, a, b, loc, g, w in bad if j == i] or \
             [("spec", l, "is 0x%x where 0x%x is required" % (a, b), loc) for j, l, a, b, loc, g, w in bad[:3]]
        return s.alarm(case, env, st, S, i, vs, [k for k in sorted(alt) if k != i])

    def aim(s, I, env, st, rest):
        """look for a disagreement where one byte, or a one-bit verdict, singles it out"""
        for label, got, want, w, loc in rest[:64]:
            sy = t.symof(got, want) if type(got) is T else None
            if sy is None and w != 1: continue
            d = t.ne(got, want, w)
            if type(d) is not T: continue
            goals = [[d]]
            if d.op == "bw" and d.sym is None: goals += [list(m) for m in list(d.a[0])[:6]]
            for g in goals:
                x = st.clone()
                try:
                    if not all(I.assume(x, c, 1) for c in g): continue
                except Limit: continue
                S = sampler(x, 24, SEED + 2, env); ok = valid(S, x); dv = S.ev(d)
                for i in range(S.n):
                    if ok[i] and int(dv[i]): return S, i, [("spec", label, "is 0x%x where 0x%x is required" % (int(S.ev(got)[i]), int(S.ev(want)[i])), loc)]
        return None

    def confirm(s, case, I2, env2, sts):
        for x in sts:
            if x.end == "cut" or x.approx: continue
            v2, o2 = s.judge(case, I2, env2, x)
            if not v2 and type(o2) is not int:
                for label, got, want, wd, loc in o2.obl:
                    if masked_equal(x, got, want): continue
                    S2 = sampler(x, 16, SEED, env2); ok = valid(S2, x)
                    a = S2.ev(got); b = S2.ev(want)
                    k = next((k for k in range(S2.n) if ok[k] and int(a[k]) != int(b[k])), None)
                    if k is not None: v2.append(("spec", label, "is 0x%x where 0x%x is required" % (int(a[k]), int(b[k])), loc))
                if not v2:
                    hit = s.aim(I2, env2, x, [ob for ob in o2.obl if not masked_equal(x, ob[1], ob[2])])
                    if hit: v2 = hit[2]
            if v2: return v2
        return None

    def alarm(s, case, env, st, S, w, vs, more=()):
        """confirm on the singleton partition of the witness before reporting"""
        r = s.res
        if w is None:
            if st.approx or st.conds:
                # no concrete witness among the samples: only exact paths over uninterpreted facts count
                if not (not st.approx and all(hard(c) for c in st.conds)):
                    s.soft.append("%s: %s %s: no witness (facts too strong or path infeasible)" % (case.label, vs[0][1], vs[0][2])); return 0
            w = 0
        tries = [w] + (list(more)[:5] if st.approx else [])
        conf = None; lim = None
        for w in tries:
            pin = {} if case.kw.get("nopin") else valuation(S, st, w, env)
            try: I2, env2, sts = s.exec(case, pin)
            except Limit as e:
                lim = e; continue
            conf = s.confirm(case, I2, env2, sts)
            if conf: break
        if conf is None:
            if lim is not None and not st.approx: conf = vs        # exact path, only the re-run hit a bound
            elif lim is not None: s.soft.append("%s: %s: confirmation bound: %s" % (case.label, vs[0][1], lim)); return 0
            else: s.soft.append("%s: %s %s: not reproduced on the singleton partition" % (case.label, vs[0][1], vs[0][2])); return 0
        vs = conf
        kind, label, msg, loc = vs[0]
        r.viol.append(dict(case=case.label, entry=case.fn if isinstance(case.fn, str) else str(case.fn), kind=kind, what=label, detail=msg,
                           where="%s:%s in %s" % (loc[1], loc[2], loc[0]) if loc else "", more=["%s %s" % (a[1], a[2]) for a in vs[1:5]],
                           witness=compact(pin)))
        return 1

def hard(c):
    """a fact only about uninterpreted values: independent facts are jointly satisfiable"""
    q = [c]; seen = set()
    while q:
        z = q.pop()
        if type(z) is not T or z in seen: continue
        seen.add(z)
        if z.op == "uf": return True
        q.extend(t._children(z))
    return False

def compact(pin):
    """byte symbols grouped into hex strings"""
    g = {}
    for k, v in pin.items():
        if k.endswith("]"):
            n, i = k[:-1].rsplit("[", 1); g.setdefault(n, {})[int(i)] = v
        else: g[k] = v
    out = {}
    for n, d in g.items():
        if type(d) is dict:
            out[n] = "".join("%02x" % d[i] if i in d else ".." for i in range(max(d) + 1))
        else: out[n] = d
    return out

# ----------------------------------------------------------------- driver
_mod = None; _cases = None; _dl = None
def _work(i):
    c = _cases[i]; t.reset(); t.PHASE[0] = ""
    r = None
    if time.time() > _dl:
        r = Result(); r.und.append("%s: time budget" % c.label); return r.d()
    A = Analysis(_mod, min(_dl, time.time() + c.kw.get("time", 300)) if isinstance(c, Case) else _dl)
    t0 = time.time()
    live = [True]
    def late(sig, fr):
        if live[0]: raise Limit("time budget")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(min(_dl - t0, c.kw.get("time", 300))) + 2))
    try:
        try:
            if isinstance(c, Case): A.run(c)
            else: c.label; c.go(A)
        finally: live[0] = False
    except Limit as e: A.res.und.append("%s: analysis bound: %s" % (c.label, e))
    except AnalysisError as e: A.res.notes.append("ANALYSIS-ERROR " + str(e))
    except MemoryError: A.res.und.append("%s: memory" % c.label)
    except Exception as e:
        A.res.und.append("%s: engine: %s" % (c.label, traceback.format_exc().strip().splitlines()[-3:]))
    signal.alarm(0)
    A.res.wall = time.time() - t0
    if os.environ.get("VERBOSE"): print("%.1fs %s" % (A.res.wall, c.label), flush=True)
    d = A.res.d(); d["funcs"] = sorted(d["funcs"])
    return d

class Task(object):
    """case that drives the analysis itself"""
    def __init__(s, label, go, **kw): s.label = label; s.go = go; s.kw = kw

def load_module(extra=("wrap.c", "libc_model.c"), flags=(), wd=None):
    d = wd or tempfile.mkdtemp(prefix="fgv")
    try:
        p = llvmir.build_bitcode(d, extra_files=[os.path.join(VERIF, "models", e) for e in extra], extra_flags=list(flags) + ["-fno-builtin"])
        return llvmir.Module(p)
    finally:
        if wd is None: shutil.rmtree(d, ignore_errors=True)

def run_cases(mod, cases, jobs=8, budget=DEADLINE):
    global _mod, _cases, _dl
    _mod = mod; _cases = cases; _dl = time.time() + budget
    tot = Result(); slow = []
    order = sorted(range(len(cases)), key=lambda i: -cases[i].kw.get("cost", 1))
    if jobs == 1: it = map(_work, order)
    else:
        ctx = multiprocessing.get_context("fork"); pool = ctx.Pool(jobs)
        it = pool.imap_unordered(_work, order, 1)
    for d in it:
        for k in ("obl", "ident", "rand", "paths", "cases"): setattr(tot, k, getattr(tot, k) + d[k])
        for k in ("und", "viol", "labels", "notes"): getattr(tot, k).extend(d[k])
        for k, v in d["stats"].items(): tot.stats[k] = tot.stats.get(k, 0) + v
        tot.funcs |= set(d["funcs"])
        slow.append((d["wall"], d["labels"][:1]))
    if jobs != 1: pool.close(); pool.join()
    tot.slow = sorted(slow, key=lambda x: -x[0])[:5]
    return tot

def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]

def report(prop, tot, mod, level, explanation, assumptions, wall, extra=None):
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    tot.viol.sort(key=lambda v: len(str(v.get("witness"))))
    kn = known(prop); viol = []; kf = []
    for v in tot.viol:
        k = next((k for k in kn if all(str(v.get(f, "")).startswith(str(x)) for f, x in k["match"].items())), None)
        (kf if k else viol).append((v, k))
    cov = dict(explanation=explanation, cases=tot.cases, obligations=tot.obl, discharged_by_normal_form=tot.ident,
               discharged_by_random_interpretation=tot.rand, undecided=len(tot.und), final_states=tot.paths,
               functions_analysed=sorted(f for f in tot.funcs if not f.startswith(("w_", "o_", "z_"))),
               engine=tot.stats, slowest=[("%.1fs" % a, b) for a, b in tot.slow], samples=sorted(tot.labels)[:3] + sorted(tot.labels)[-3:])
    if tot.und: cov["undecided_cases"] = sorted(tot.und)[:40]
    if extra: cov.update(extra)
    json.dump(dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=len(viol)),
              open(os.path.join(ev, prop + ".json"), "w"), indent=1, default=str)
    for v, k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        rp = os.path.join(ev, "%s.violation.json" % prop)
        json.dump([v for v, k in viol], open(rp, "w"), indent=1, default=str)
        for v, k in viol[:8]:
            print("  %s: %s %s: %s  %s" % (v["case"], v["entry"], v["what"], v["detail"], v["where"]))
            if v["witness"]: print("     for inputs %s" % json.dumps(v["witness"])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    bad = [n for n in tot.notes if n.startswith("ANALYSIS-ERROR")]
    if bad:
        for b in bad[:5]: print(b)
        return 3
    if tot.obl == 0:
        print("ANALYSIS-ERROR no obligation was decided for %s" % prop)
        for u in tot.und[:10]: print("  undecided: " + u)
        return 3
    print("%s held: %d cases, %d obligations (%d by normal form, %d by random interpretation), %d undecided, %.1f s" %
          (prop, tot.cases, tot.obl, tot.ident, tot.rand, len(tot.und), wall))
    for u in tot.und[:5]: print("  undecided: " + u)
    return 0
