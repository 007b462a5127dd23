"""C26: curve contexts are created, blinded, used and destroyed in order."""
from check import Case
from btc import *
import c24, c25
SEQ = False
LEVEL = "proof"
EXPLAIN = ("typestate analysis of the context objects: init, every public key function, and uninit are interpreted with contexts as objects that carry their kind and life "
           "cycle; each curve operation must receive a live context of the kind it needs, the signing context must be blinded with 32 fresh generator bytes, and the "
           "uninit / init sequences must leave no live context behind and allow a new initialisation")
ASSUME = ["libsecp256k1 behaves as documented"]

def ctxs(st): return [o for o in st.mem.values() if o.kind == "ctx"]
def initialised(st, o, since=0):
    live = [c for c in ctxs(st) if c.alive]
    for need, nm in ((secp.SIGN, "signing"), (secp.VERIFY, "verification")):
        if not any(c.meta & need for c in live): o.fail("contexts", "no live %s context after initialisation" % nm, st.trace)
        else: o.ok()
    rz = [(a, v) for n, a, v in ops(st) if n == "context_randomize"]
    for c in live:
        if not c.meta & secp.SIGN: continue
        mine = [a for a, v in rz if a[0] == c.id and v == 1]
        if not mine or mine[-1][1] is None: o.fail("blinding", "the signing context is not randomised", st.trace)
        elif not c25.israndom(mine[-1][1]): o.fail("blinding", "the signing context is not randomised with 32 fresh generator bytes", st.trace)
        else: o.ok()
    if len(live) > 2: o.fail("contexts", "%d live contexts" % len(live), st.trace)
def spec_init(env, st, o):
    if st.end != "ret": return excused(st, o)
    if failed(st): o.fail("blinding", "initialisation returns although randomisation failed", st.trace); return
    initialised(st, o)
def spec_down(env, st, o):
    if st.end != "ret": return excused(st, o)
    a = [c for c in ctxs(st) if c.alive]
    if a: o.fail("contexts", "%d context(s) not destroyed by uninit" % len(a), st.trace)
    else: o.ok()
    d = [e[2] for e in st.log if e[0] == "secp" and e[1] == "context_destroy"]
    if len(d) != len(set(d)): o.fail("contexts", "a context is destroyed twice", st.trace)
    else: o.ok()
UP, DOWN = ("fingera_btc_key_init", []), ("fingera_btc_key_uninit", [])
E = ("ret", "assert")
def cases(thorough, mod):
    out = [Case("init", "fingera_btc_key_init", lambda env: [UP], spec_init, models=OPAQUE, ends=E),
           Case("init uninit", "fingera_btc_key_uninit", lambda env: [UP, DOWN], spec_down, models=OPAQUE, ends=E),
           Case("init uninit init", "fingera_btc_key_init", lambda env: [UP, DOWN, UP], spec_init, models=OPAQUE, ends=E),
           Case("init uninit twice", "fingera_btc_key_uninit", lambda env: [UP, DOWN] * 2, spec_down, models=OPAQUE, ends=E),
           Case("init uninit three times", "fingera_btc_key_uninit", lambda env: [UP, DOWN] * 3 + [UP], spec_init, models=OPAQUE, ends=E)]
    # every operation of every function: the models check kind and life of the context they receive
    for c in c24.cases(thorough, mod) + c25.cases(thorough, mod):
        if c.fn in ("fingera_btc_key_init",) or "300" in c.label: continue
        kw = dict(c.kw); kw["ends"] = ("ret", "assert", "exit", "abort")
        def spec(env, st, o):
            n = len(ops(st)); o.ok(max(1, n))
            if len([x for x in ctxs(st) if x.alive]) > 2: o.fail("contexts", "a context is left behind", st.trace)
        out.append(Case("contexts of " + c.label, c.fn, c.build, spec, **kw))
        def again(env, c=c): return [(c.fn, c.build(env)), DOWN]
        out.append(Case("uninit after " + c.label, c.fn, again, lambda env, st, o: spec_down(env, st, o) if st.end == "ret" else o.ok(), **kw))
    for n in (0, 9, 70):
        out.append(Case("contexts of signature_decode n=%d" % n, "fingera_btc_signature_decode", lambda env, n=n: [env.input("der", n, vals=list(b"\x30\x44\x02")[:n] + [None] * (n - 3)), n, env.output("sig", 64)],
                        lambda env, st, o: o.ok(max(1, len(ops(st)))), pre=ready, models=OPAQUE, ends=("ret",)))
    return out
