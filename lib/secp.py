"""libsecp256k1 as uninterpreted functions: every operation is a function of its input
bytes; operations that may fail have both outcomes analysed; contexts carry a kind and a
life cycle that is checked at each use.  Each call is recorded in the state's log."""
import terms as t
from terms import T, M
from interp import P, FP, UND, Stop, Limit
from libc import conc, concp, cstr

SIGN, VERIFY = 1 << 9, 1 << 8
SECRET_CLEAR = 0

def ctxarg(I, st, av, need):
    c = av[0]
    if type(c) is int and c == 0: I.event(st, "context", "NULL context")
    if type(c) is not P: I.event(st, "context", "context argument is not a context")
    o = st.mem.get(c.o)
    if o is None or o.kind != "ctx": I.event(st, "context", "context argument is not a context")
    if not o.alive: I.event(st, "context", "use of a destroyed context")
    if need and not (o.meta & need):
        I.event(st, "context", "operation needs a %s context but gets one created with flags 0x%x" % ("signing" if need == SIGN else "verification", o.meta))
    return c.o
def rd(I, st, av, i, n):
    p = concp(I, st, av, i, n, False)
    if type(p) is int and p == 0: I.event(st, "null", "NULL passed to the curve library")
    o = I.check(st, p, n, False)
    c = I.load_cells(st, o, p.off, n)
    if c is None: I.event(st, "uninit", "uninitialised bytes of %s passed to the curve library" % o.name)
    if any(type(x) is tuple for x in c): raise Limit("pointer bytes passed to the curve library")
    return tuple(c)
def wr(I, st, p, cells):
    o = I.check(st, p, len(cells), True)
    I.store_cells(st, st.wobj(p.o), p.off, cells)
def outs(name, args, n, taint=None): return [t.uf(name, args, 8, i, taint=taint) for i in range(n)]
def log(st, *e): st.log.append(("secp",) + e)

def boolean(I, st, name, args, good, bad, entry):
    """fork on the operation's verdict"""
    c = t.uf("ok:" + name, args, 1, taint=0)
    res = []
    d = I.decide(st, c)
    alts = [(st, 1), (st.clone(), 0)] if d is None else [(st, d)]
    for s2, v in alts:
        if I.assume(s2, c, v):
            (good if v else bad)(s2); log(s2, name, entry, v); res.append((s2, v))
    if d is None: I.stats["forks"] += 1
    if len(res) == 1: return res
    return res

def m_create(I, st, av, ins):
    fl = av[0]
    o = st.new_obj("ctx", 208, "heap"); o2 = st.wobj(o.id); o2.kind = "ctx"; o2.meta = fl
    if type(fl) is not int or fl & 0xff != 1: I.event(st, "context", "invalid context flags")
    log(st, "context_create", fl, o.id)
    return P(o.id, 0)
def m_destroy(I, st, av, ins):
    c = av[0]
    if type(c) is int and c == 0: log(st, "context_destroy", None); return 0
    k = ctxarg(I, st, av, 0)
    st.wobj(k).alive = False; log(st, "context_destroy", k)
    return 0
def m_clone(I, st, av, ins):
    k = ctxarg(I, st, av, 0)
    o = st.new_obj("ctx", 208, "heap"); o2 = st.wobj(o.id); o2.kind = "ctx"; o2.meta = st.mem[k].meta
    return P(o.id, 0)
def m_randomize(I, st, av, ins):
    k = ctxarg(I, st, av, 0)
    if type(av[1]) is int and av[1] == 0:
        log(st, "context_randomize", (k, None), 1); return 1
    b = rd(I, st, av, 1, 32)
    return boolean(I, st, "context_randomize", (b,), lambda s: None, lambda s: None, (k, b))
def m_seckey_verify(I, st, av, ins):
    k = ctxarg(I, st, av, 0); b = rd(I, st, av, 1, 32)
    return boolean(I, st, "seckey_verify", (b,), lambda s: None, lambda s: None, (k, b))
def m_pubkey_create(I, st, av, ins):
    k = ctxarg(I, st, av, SIGN); b = rd(I, st, av, 2, 32); p = concp(I, st, av, 1, 64, True); I.check(st, p, 64, True)
    # validity of a secret key is one predicate, whoever asks
    return boolean(I, st, "seckey_verify", (b,), lambda s: wr(I, s, p, outs("pubkey_create", (b,), 64, taint=0)),
                   lambda s: wr(I, s, p, [0] * 64), (k, "create", b))
def m_pubkey_parse(I, st, av, ins):
    k = ctxarg(I, st, av, 0); n = conc(I, st, av, 3); b = rd(I, st, av, 2, n) if n else (); p = concp(I, st, av, 1, 64, True); I.check(st, p, 64, True)
    if n not in (33, 65):
        wr(I, st, p, [0] * 64); log(st, "pubkey_parse", (k, b), 0); return 0
    return boolean(I, st, "pubkey_parse", (b,), lambda s: wr(I, s, p, outs("pubkey_parse", (b,), 64)), lambda s: wr(I, s, p, [0] * 64), (k, b))
def m_pubkey_serialize(I, st, av, ins):
    k = ctxarg(I, st, av, 0); b = rd(I, st, av, 3, 64); fl = conc(I, st, av, 4)
    lp = rd(I, st, av, 2, 8); n = 0
    if any(type(x) is not int for x in lp): raise Limit("symbolic output length")
    for i, x in enumerate(lp): n |= x << (8 * i)
    if fl & 0xff != 2: I.event(st, "curve-argument", "invalid serialisation flags 0x%x" % fl)
    need = 33 if fl & 0x100 else 65
    if n < need: I.event(st, "curve-argument", "output length %d too small for a %d-byte key" % (n, need))
    p = concp(I, st, av, 1, n, True); I.check(st, p, n, True)
    wr(I, st, p, outs("pubkey_ser%d" % need, (b,), need) + [0] * (n - need))
    wr(I, st, av[2], [need] + [0] * 7)
    log(st, "pubkey_serialize", (k, b, need), 1)
    return 1
def m_parse_compact(I, st, av, ins):
    k = ctxarg(I, st, av, 0); b = rd(I, st, av, 2, 64); p = concp(I, st, av, 1, 64, True); I.check(st, p, 64, True)
    if all(type(x) is int and x == 0 for x in b):
        wr(I, st, p, [0] * 64); log(st, "parse_compact", (k, b), 1); return 1
    return boolean(I, st, "parse_compact", (b,), lambda s: wr(I, s, p, outs("sig", (b,), 64)), lambda s: wr(I, s, p, [0] * 64), (k, b))
def m_parse_der(I, st, av, ins):
    k = ctxarg(I, st, av, 0); n = conc(I, st, av, 3); b = rd(I, st, av, 2, n) if n else (); p = concp(I, st, av, 1, 64, True); I.check(st, p, 64, True)
    return boolean(I, st, "parse_der", (b,), lambda s: wr(I, s, p, outs("sigder", (b,), 64)), lambda s: wr(I, s, p, [0] * 64), (k, b))
def m_ser_compact(I, st, av, ins):
    k = ctxarg(I, st, av, 0); b = rd(I, st, av, 2, 64); p = concp(I, st, av, 1, 64, True)
    wr(I, st, p, outs("sig_compact", (b,), 64)); log(st, "serialize_compact", (k, b), 1)
    return 1
def m_ser_der(I, st, av, ins):
    k = ctxarg(I, st, av, 0); b = rd(I, st, av, 3, 64); lp = rd(I, st, av, 2, 8); n = 0
    if any(type(x) is not int for x in lp): raise Limit("symbolic output length")
    for i, x in enumerate(lp): n |= x << (8 * i)
    p = av[1]; out = []
    for L in (8, 70, 71, 72):
        s2 = st.clone(); sz = t.uf("der_len", (b,), 8, lo=8, hi=72)
        if not I.assume(s2, t.eq(sz, L, 8), 1): continue
        if L <= n:
            wr(I, s2, p, outs("sig_der", (b,), L)); log(s2, "serialize_der", (k, b, n), 1); r = 1
        else: log(s2, "serialize_der", (k, b, n), 0); r = 0
        wr(I, s2, av[2], [L] + [0] * 7); out.append((s2, r))
    # the documented failure outcome, whatever the reason
    s2 = st.clone(); wr(I, s2, av[2], [72] + [0] * 7); log(s2, "serialize_der", (k, b, n), 0)
    I.assume(s2, t.uf("der_fail", (b,), 1, taint=0), 1); out.append((s2, 0))
    I.stats["forks"] += len(out) - 1
    return out
def m_normalize(I, st, av, ins):
    k = ctxarg(I, st, av, 0); b = rd(I, st, av, 2, 64)
    if type(av[1]) is P:
        p = concp(I, st, av, 1, 64, True); wr(I, st, p, outs("sig_lowS", (b,), 64))
    log(st, "normalize", (k, b), 1)
    return t.zext(t.uf("was_high", (b,), 1, taint=0), 1, 32)
def m_verify(I, st, av, ins):
    k = ctxarg(I, st, av, VERIFY); s = rd(I, st, av, 1, 64); h = rd(I, st, av, 2, 32); p = rd(I, st, av, 3, 64)
    return boolean(I, st, "ecdsa_verify", (s, h, p), lambda x: None, lambda x: None, (k, s, h, p))
def m_sign(I, st, av, ins):
    k = ctxarg(I, st, av, SIGN); p = concp(I, st, av, 1, 64, True); I.check(st, p, 64, True)
    h = rd(I, st, av, 2, 32); key = rd(I, st, av, 3, 32)
    nf = av[4]; fn = "?"
    if type(nf) is int and nf == 0: fn = "rfc6979"
    elif type(nf) is T:
        s = " ".join(str(x.a[0]) for x in t.support(nf))
        if "nonce_function_rfc6979" in s or "nonce_function_default" in s: fn = "rfc6979"
    elif type(nf) is FP: fn = nf.name
    nd = av[5]; ent = ()
    if type(nd) is P: ent = rd(I, st, av, 5, 32)
    # failure happens for an invalid key (or a failing nonce function)
    return boolean(I, st, "ecdsa_sign", (h, key, ent), lambda x: wr(I, x, p, outs("ecdsa_sig", (h, key, ent, fn), 64, taint=0)),
                   lambda x: wr(I, x, p, [0] * 64), (k, h, key, fn, ent))
def m_tweak(I, st, av, ins):
    k = ctxarg(I, st, av, 0); key = rd(I, st, av, 1, 32); tw = rd(I, st, av, 2, 32); p = av[1]; I.check(st, p, 32, True)
    return boolean(I, st, "seckey_tweak_add", (key, tw), lambda x: wr(I, x, p, outs("tweaked", (key, tw), 32)),
                   lambda x: wr(I, x, p, [0] * 32), (k, key, tw))
def m_ptweak(I, st, av, ins):
    k = ctxarg(I, st, av, VERIFY); key = rd(I, st, av, 1, 64); tw = rd(I, st, av, 2, 32); p = av[1]; I.check(st, p, 64, True)
    return boolean(I, st, "pubkey_tweak_add", (key, tw), lambda x: wr(I, x, p, outs("ptweaked", (key, tw), 64)),
                   lambda x: wr(I, x, p, [0] * 64), (k, key, tw))

_ = "secp256k1_"
MODELS = {_ + k: v for k, v in {
    "context_create": m_create, "context_destroy": m_destroy, "context_clone": m_clone, "context_randomize": m_randomize,
    "ec_seckey_verify": m_seckey_verify, "ec_pubkey_create": m_pubkey_create, "ec_pubkey_parse": m_pubkey_parse,
    "ec_pubkey_serialize": m_pubkey_serialize, "ecdsa_signature_parse_compact": m_parse_compact, "ecdsa_signature_parse_der": m_parse_der,
    "ecdsa_signature_serialize_compact": m_ser_compact, "ecdsa_signature_serialize_der": m_ser_der, "ecdsa_signature_normalize": m_normalize,
    "ecdsa_verify": m_verify, "ecdsa_sign": m_sign, "ec_privkey_tweak_add": m_tweak, "ec_seckey_tweak_add": m_tweak, "ec_pubkey_tweak_add": m_ptweak,
}.items()}
