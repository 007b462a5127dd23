"""C20: the wipe primitive really overwrites and cannot be optimised away."""
import os, shutil, tempfile, time
import terms as t
import llvmir, libc
from terms import T
from interp import P
from check import Case
import check
LEVEL = "proof"
EXPLAIN = ("(a) the wipe is interpreted on objects with guard bytes on both sides: afterwards no byte of the range may still depend on its old value, every overwrite must be one the language obliges the compiler to keep (followed by an asm statement given the object's address and a memory clobber, volatile, or explicit_bzero), and no other byte may have changed, for enumerated sizes including "
           "ones past 2^31 and 2^32; (b) the whole library and a set of callers whose buffer dies right after the wipe are compiled at -O1, -O2, -O3 and -Os, linked and optimised again as one closed program (link-time inlining, "
           "internalised symbols); in the optimised IR that comes out no stack or heap byte may hold data depending on the secret when its object dies")
ASSUME = ["clang 18 stands for the optimising compiler; other compilers are covered through the same language rule (an asm statement with the object's address and a memory clobber, or a volatile access, must be preserved)",
          "code generation after the optimised IR removes no stores"]
GUARD = 8
def wipe(n, off=0):
    def build(env):
        p = env.input("buf", GUARD + off + n + GUARD, taint=1, ro=False, kind="heap")
        o = env.st.wobj(p.o); o.dirty = {i: ("caller", "", 0) for i in range(GUARD + off, GUARD + off + n)}
        return [P(p.o, GUARD + off), n]
    def spec(env, st, o):
        d = env.data["buf"]; a = GUARD + off; x = next(q for q in st.mem.values() if q.name == "buf")
        for i in range(len(d)):
            v = x.cells.get(i)
            if a <= i < a + n:
                o.ok()
                if v is d[i] or (type(v) is T and v.taint): o.fail("byte %d of %d" % (i - a, n), "still depends on its old value", st.trace); return
                if x.dirty and i in x.dirty: o.fail("byte %d of %d" % (i - a, n), "is overwritten, but nothing obliges the compiler to keep the overwrite", st.trace); return
            if not a <= i < a + n: o.eq("byte %d outside the range" % (i - a), v, d[i])
    return Case("wipe of %d bytes at offset %d" % (n, off), "fingera_cleanse", build, spec, nopin=True, opts=dict(track_secret=1))
def m_set(I, st, av, ins):
    n = libc.conc(I, st, av, 2)
    if n > 1 << 20:
        I.check(st, av[0], n, True); st.log.append(("set", av[0].o, av[0].off, n)); return av[0]
    I.memset(st, av[0], av[1], n)
    if n: st.log.append(("set", av[0].o, av[0].off, n))
    return av[0]
def huge(n):
    def build(env):
        o = env.st.new_obj("buf", n + 2 * GUARD, "out", lambda i: t.sym("b[%d]" % (i % 7))); env.oid = o.id; return [P("buf", GUARD), n]
    def spec(env, st, o):
        o.ok(); at = GUARD
        for e in sorted((e for e in st.log if e[0] == "set"), key=lambda e: e[2]):
            if e[2] > at: break
            at = max(at, e[2] + e[3])
        if at != GUARD + n: o.fail("range", "%d of %d bytes are overwritten" % (at - GUARD, n), st.trace)
    return Case("wipe of %d bytes" % n, "fingera_cleanse", build, spec, models={"memset": m_set}, nopin=True, time=60)

def residue(I, st, o):
    if o.kind not in ("stack", "heap"): return
    I.stats["released"] = I.stats.get("released", 0) + 1
    bad = sorted(k for k, v in o.cells.items() if type(v) is T and v.taint)
    if bad: I.event(st, "secret left behind", "%d bytes of %s (%d..%d) still hold the secret when it dies, although the source wipes them" % (len(bad), o.name, bad[0], bad[-1]))
def sink(I, st, av, ins):
    n = libc.conc(I, st, av, 1); I.check(st, av[0], n, True)
    return 0
def rspec(env, st, o): o.ok(1 + env.I.stats.get("released", 0))
WIT = [("wit_local", 32, lambda p, e: [p]), ("wit_words", 64, lambda p, e: [p]), ("wit_escaping", 48, lambda p, e: [p]), ("wit_branch", 64, lambda p, e: [p, 0]), ("wit_branch", 64, lambda p, e: [p, 1]), ("wit_two", 84, lambda p, e: [p])] + \
      [("wit_variable", n, lambda p, e, n=n: [p, n]) for n in (0, 1, 7, 8, 16, 31, 32, 33, 63, 64)] + [(f, n, lambda p, e, n=n: [p, n]) for f in ("wit_heap", "wit_heap_escaping") for n in (1, 16, 33, 129)] + [("wit_loop", 48, lambda p, e: [p, 3])]
def witness(fn, n, args, level):
    return Case("%s, %d bytes, -%s with link-time inlining" % (fn, n, level), fn, lambda env: args(env.input("in", max(n, 1), taint=1), env), rspec, models={"wit_sink": sink}, opts=dict(on_free=residue, merge=False), nopin=True)
def optimised(level, wd):
    api = ",".join(sorted({w[0] for w in WIT})); d = os.path.join(wd, level); os.makedirs(d)
    p = llvmir.build_bitcode(d, opt="-" + level, passes="internalize,globaldce,default<%s>" % level, extra_files=[os.path.join(check.VERIF, "models", "wipe.c")],
                             extra_flags=["-fno-vectorize", "-fno-slp-vectorize"], optargs=["-internalize-public-api-list=" + api, "-vectorize-loops=false", "-vectorize-slp=false"], tag=level)
    return llvmir.Module(p)
def main(t0):
    from llvmir import AnalysisError
    mod = check.load_module(); th = check.TIER == "thorough"
    cs = [wipe(n) for n in list(range(0, 140)) + [255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 4097, 65535, 65536, 65537]] + [wipe(n, o) for o in range(1, 8) for n in (0, 1, 3, 8, 13, 32, 64, 65)]
    cs += [huge(n) for n in (1 << 21, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 77, 1 << 40)]
    tot = check.run_cases(mod, cs)
    wd = tempfile.mkdtemp(prefix="fgv20"); lv = ["O1", "O2", "O3", "Os"]
    try:
        for level in lv:
            m = optimised(level, wd)
            r = check.run_cases(m, [witness(f, n, a, level) for f, n, a in WIT])
            for k in ("obl", "ident", "rand", "paths", "cases"): setattr(tot, k, getattr(tot, k) + getattr(r, k))
            for k in ("und", "viol", "labels", "notes"): getattr(tot, k).extend(getattr(r, k))
            tot.funcs |= r.funcs
    finally: shutil.rmtree(wd, ignore_errors=True)
    return check.report("C20", tot, mod, LEVEL, EXPLAIN, ASSUME, time.time() - t0, dict(optimisation_levels=lv))
