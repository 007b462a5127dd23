"""C34: a failed scratch allocation ends the process or fails the call; the missing buffer is never used."""
import terms as t
import libc
from check import Case
import c27, c19
from c10 import noleak
from c27 import ENDS
from c13 import kinds, BAD, WKEY, WSCR, WUNK
OK = set()      # address kinds that need no Base58 scratch
SEQ = False
LEVEL = "other"
EXPLAIN = ("fault-outcome analysis of every call of the C27 case set: each malloc, calloc or realloc has two outcomes, a fresh block and NULL (any combination over the path).  On every path with a NULL outcome "
           "the call either does not return (the process ends through fingera_fatal, exit, abort or an assertion), or returns its failure value with every other block released once and no secret left in a "
           "released buffer; using the missing buffer, writing through it, copying to it or releasing something else in its place is a memory event of the path and is reported with the allocation that failed")
ASSUME = ["input sizes are enumerated on both sides of each stack-buffer limit", "libsecp256k1's own allocations are the curve library's (it aborts the process)"]
def two(model, nm):
    def f(I, st, av, ins):
        s = st.clone(); v = model(I, s, av, ins)
        z = st.clone(); z.tags["oom"] = "%s at %s:%s" % ((nm,) + tuple(I.loc(st)[1:3]))
        return [(s, v), (z, 0)]
    return f
NULLS = {"malloc": two(libc.m_malloc, "malloc"), "calloc": two(libc.m_calloc, "calloc"), "realloc": two(libc.m_realloc, "realloc")}
def spec(env, st, o):
    o.ok()
    w = st.tags.get("oom")
    if not w or st.end != "ret": return
    noleak(st, o)
    o.ok()
    if st.rv not in (None, 0) and not (env.case.fn == "fingera_btc_address_decode" and st.rv in OK): o.fail("failed allocation", "%s returned NULL and the call reports success (%s)" % (w, st.rv), st.trace)
def cases(thorough, mod):
    OK.update(kinds(mod)[i] for i in (BAD, WKEY, WSCR, WUNK)); out = []
    for c in c27.cases(thorough, mod):
        k = dict(c.kw); k["models"] = dict(k.get("models") or {}, **NULLS); o = dict(k.get("opts") or {}); k["opts"] = o
        out.append(Case(c.label, c.fn, c.build, spec, **k))
    for c in c19.cases(False, mod):
        if not any(x in c.fn for x in ("string", "base58")): continue
        k = dict(c.kw); k["models"] = dict(k.get("models") or {}, **NULLS); k["ends"] = ENDS; k["must_return"] = False
        out.append(Case("wiping, " + c.label, c.fn, c.build, spec, **k))
    return out
