"""C27: scratch memory and descriptors are released on every path."""
from check import Case
from interp import P
import terms as t
import libc
import c10, c16, c19, c21, c05, c06, c13
from c10 import noleak
from spec import *
from strs import chain, offsets
LEVEL = "other"
EXPLAIN = ("typestate analysis of every heap block and file descriptor on every path of the interpreted calls: allocated/open, released exactly once, never touched after release, nothing owned at return.  "
           "Double releases, releases of foreign or moved pointers and uses after release are obligations of each access; ownership at return is checked for each returning path, failures included.  Inputs: both "
           "sides of the stack-buffer limit for every parser and codec, all the opaque-decoder, free and failing-tail partitions of C10 and C16, the operating system outcomes of C21 for the generator, and the "
           "cases of C19 for the remaining routines (hashes, MACs, keys, signatures, generator set-up)")
ASSUME = ["allocation succeeds (C34 takes the other outcome)", "input sizes are enumerated on both sides of each limit"]
def m_short58(I, st, av, ins):
    k = libc.conc(I, st, av, 1); I.check(st, av[0], k, False) if k else None
    I.check(st, av[2], 1, True); I.store_cells(st, st.wobj(av[2].o), av[2].off, [t.sym("enc")]); return 1
ENDS = ("ret", "assert", "exit", "abort")
def spec(env, st, o):
    if st.end != "ret": o.ok(); return
    o.ok(); noleak(st, o)
    for k, v in st.tags.items():
        if k.startswith("fd"):
            if v != "closed": o.fail("descriptor", "%s is still open at return" % k, st.trace)
            else: o.ok()
def wrap(c, **kw):
    k = dict(c.kw); k.update(kw); k["ends"] = ENDS; k["must_return"] = False
    o = dict(k.get("opts") or {}); [o.pop(x, None) for x in ("track_secret", "on_free", "rand_taint")]; k["opts"] = o
    return Case(c.label, c.fn, c.build, spec, **k)
def cases(thorough, mod):
    out = [wrap(c) for c in c16.parts(thorough, mod, spec) if thorough or not c.fn.startswith("fingera_bech32") and not c.label.startswith("decode ")]
    if not thorough: out += [wrap(c) for c in c13.cases(False, mod) if c.fn == "fingera_btc_address_decode"][::5]
    for c in c10.cases(thorough, mod): out.append(wrap(c))
    for c in c19.cases(thorough, mod): out.append(wrap(c))
    for n in (0, 1, 2, 3, 5, 8, 16): out.append(wrap(c21.case(n)))
    for n in (32, 40, 64, 257, 4096, 65537, 1 << 20, 1 << 32): out.append(wrap(c21.case(n, False)))
    for n in (0, 1, 5, 33, 100, 120, 128, 200):
        for pl in (0, 1, 8): out.append(wrap(c10.tochk("%d free bytes, %d-byte prefix" % (n, pl), [range(256)] * n, [range(256)] * pl), models=dict(HASH_MODELS, fingera_to_base58=m_short58), nopin=True))
    return out
