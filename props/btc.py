"""Shared set-up of the Bitcoin-key properties: hashes and the OS generator opaque, curve
operations uninterpreted, contexts created by the library's own init routine."""
import terms as t
import libc, secp
from interp import P
from spec import *
import spec as _spec

def m_rand(I, st, av, ins):
    """fingera_os_rand_bytes(buf, n): n fresh bytes (C21 decides the routine itself)"""
    n = libc.conc(I, st, av, 1)
    if n:
        p = libc.concp(I, st, av, 0, n, True); I.check(st, p, n, True)
        k = st.tags.get("nrand", 0); st.log.append(("rand", k, n))
        libc.fill_random(I, st, p, 0, n)
    return 0
OPAQUE = dict(HASH_MODELS); OPAQUE["fingera_os_rand_bytes"] = m_rand

def ready(I, st, env):
    """a live key module, set up by the library's own init routine"""
    keep = dict(I.models)
    def ok(I, st, av, ins):
        k = secp.ctxarg(I, st, av, 0)
        if type(av[1]) is P: secp.rd(I, st, av, 1, 32)
        return 1
    I.models["secp256k1_context_randomize"] = ok
    r = [x for x in I.call(st, "fingera_btc_key_init", []) if x.end == "ret"]
    I.models.clear(); I.models.update(keep)
    if len(r) != 1: raise libc.Limit("key module initialisation does not return on exactly one path (%d)" % len(r))
    st = r[0]; st.end = None; st.rv = None; st.log = []
    env.ready = True
    return st

def ops(st):
    """curve operations of the path: (name, arguments, verdict)"""
    return [(e[1], e[2], e[3] if len(e) > 3 else None) for e in st.log if e[0] == "secp"]
def failed(st): return [o for o in ops(st) if o[2] == 0]
def excused(st, o, what="the call ends the process"):
    """an assertion may only fire when a curve operation reported failure"""
    if failed(st): o.ok(); return
    o.fail("termination", "%s although no curve operation failed: %s" % (what, st.rv))

def pub(key): return ufbytes("pubkey_create", (tuple(key),), 64)
def ser(pub64, n): return ufbytes("pubkey_ser%d" % n, (tuple(pub64),), n)
