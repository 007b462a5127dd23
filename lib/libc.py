"""Models of the C library (and OS) functions the library calls, for the abstract interpreter."""
import terms as t
from terms import T, M
from interp import P, FP, UND, Stop, Limit, ForkArg, ForkLoad

def conc(I, st, av, i):
    """argument i as a concrete integer; forks on its value set otherwise"""
    n = av[i]
    if type(n) is int: return n
    if n is UND: I.event(st, "uninit", "argument %d of a library call" % i)
    if type(n) is not T: raise Limit("non-integer argument")
    res = I.split(st, n)
    if res is None:
        l, h = I.rngq(st, n)
        I.note_unproven(st, "length argument not bounded [%d,%d]" % (l, h)); raise Limit("symbolic length")
    raise ForkArg(i, res)

def concp(I, st, av, i, n, wr):
    p = av[i]
    if type(p) is P and type(p.off) is not int:
        raise ForkArg(i, [(a, b) for a, b, c in I.resolve(st, p, n, wr)])
    return p

def m_malloc(I, st, av, ins):
    n = conc(I, st, av, 0)
    if n > 1 << 28: raise Limit("huge allocation")
    o = st.new_obj("heap:" + I.loc(st)[0], n, "heap")
    o.meta = I.loc(st)
    return P(o.id, 0)
def m_calloc(I, st, av, ins):
    n = conc(I, st, av, 0); m = conc(I, st, av, 1)
    if n * m > 1 << 22: raise Limit("huge allocation")
    o = st.new_obj("heap:" + I.loc(st)[0], n * m, "heap"); o.meta = I.loc(st)
    for i in range(n * m): o.cells[i] = 0
    return P(o.id, 0)
def m_free(I, st, av, ins):
    p = av[0]
    if type(p) is int and p == 0: return 0
    if type(p) is not P: I.event(st, "bad-free", "free of a non-pointer")
    o = st.mem.get(p.o)
    if o is None or o.kind != "heap": I.event(st, "bad-free", "free of %s, which malloc did not return" % (o.name if o else "?"))
    if not o.alive: I.event(st, "double-free", "second free of %s" % o.name)
    if p.off != 0: I.event(st, "bad-free", "free of an interior pointer of %s" % o.name)
    o = st.wobj(p.o); I.release(st, o); o.alive = False; o.cells = {}; o.dirty = None; o.pend = None
    return 0
def m_realloc(I, st, av, ins):
    n = conc(I, st, av, 1); p = av[0]
    o = st.new_obj("heap:" + I.loc(st)[0], n, "heap"); o.meta = I.loc(st); q = P(o.id, 0)
    if type(p) is P:
        old = st.mem[p.o]
        I.check(st, p, 0, False)
        k = min(n, old.size)
        if k: I.memcpy(st, q, p, k)
        m_free(I, st, [p], ins)
    return q

def m_memcmp(I, st, av, ins):
    n = conc(I, st, av, 2)
    if n == 0: return 0
    a = concp(I, st, av, 0, n, False); b = concp(I, st, av, 1, n, False)
    I.check(st, a, n, False); I.check(st, b, n, False)
    x = []; y = []
    for p, l in ((a, x), (b, y)):
        o = st.mem[p.o]
        c = I.load_cells(st, o, p.off, n)
        if c is None: I.event(st, "uninit", "memcmp reads uninitialised bytes of %s" % o.name)
        l.extend(c)
    if any(type(v) is tuple for v in x + y): raise Limit("memcmp of pointers")
    if I.ct is not None and any(type(v) is T and v.taint & I.ct for v in x + y): I.event(st, "secret-dependent", "memcmp stops at the first difference of secret bytes")
    e = 1
    for p, q in zip(x, y): e = t.band(e, t.eq(p, q, 8), 1)
    if type(e) is int and e: return 0
    if all(type(p) is int and type(q) is int for p, q in zip(x, y)):
        return 1 if bytes(x) > bytes(y) else M[32]
    nz = t.uf("memcmp", [tuple(x), tuple(y)], 32, lo=1)
    if type(e) is int: return nz
    d = I.decide(st, e)
    if d is not None: return 0 if d else nz
    return t.ite(e, 0, nz, 32)

def m_mem(fn):
    def f(I, st, av, ins):
        n = conc(I, st, av, 2)
        if fn == "set": I.memset(st, av[0], av[1], n)
        else: I.memcpy(st, av[0], av[1], n)
        return av[0]
    return f
def m_bzero(I, st, av, ins):
    n = conc(I, st, av, 1); I.memset(st, av[0], 0, n); return 0
def m_explicit_bzero(I, st, av, ins):
    n = conc(I, st, av, 1); I.memset(st, av[0], 0, n)
    if n and I.track_secret:
        o = st.wobj(av[0].o)
        for k in range(av[0].off, av[0].off + n):
            if o.pend: o.pend.discard(k)
            if o.dirty: o.dirty.pop(k, None)
    return 0

# ---- ctype in the C locale
def _ctype():
    out = []
    for c in range(-128, 256):
        f = 0
        if 0 <= c < 128:
            ch = chr(c)
            up = "A" <= ch <= "Z"; lo = "a" <= ch <= "z"; dg = "0" <= ch <= "9"
            if up: f |= 0x100
            if lo: f |= 0x200
            if up or lo: f |= 0x400
            if dg: f |= 0x800
            if dg or ch in "abcdefABCDEF": f |= 0x1000
            if ch in " \t\n\v\f\r": f |= 0x2000
            if 32 <= c < 127: f |= 0x4000
            if 33 <= c < 127: f |= 0x8000
            if ch in " \t": f |= 0x1
            if c < 32 or c == 127: f |= 0x2
            if 33 <= c < 127 and not (up or lo or dg): f |= 0x4
            if up or lo or dg: f |= 0x8
        out.append(f)
    return out
CT = _ctype()
def _ct_obj(st):
    if "ctype_ptr" in st.mem: return
    o = st.new_obj("ctype_b", 768, "libc", None, True)
    for i, f in enumerate(CT): o.cells[2 * i] = f & 255; o.cells[2 * i + 1] = f >> 8
    q = st.new_obj("ctype_ptr", 8, "libc", None, True)
    for i in range(8): q.cells[i] = ("P", P("ctype_b", 256), i)
    for nm, fn in (("ctype_lower", lambda c: c + 32 if 65 <= c <= 90 else c), ("ctype_upper", lambda c: c - 32 if 97 <= c <= 122 else c)):
        o = st.new_obj(nm, 384 * 4, "libc", None, True)
        for i in range(384):
            v = fn(i - 128) & M[32]
            for k in range(4): o.cells[4 * i + k] = (v >> (8 * k)) & 255
        q = st.new_obj(nm + "_ptr", 8, "libc", None, True)
        for i in range(8): q.cells[i] = ("P", P(nm, 512), i)
def m_ctype(nm):
    def f(I, st, av, ins):
        _ct_obj(st); return P(nm, 0)
    return f
def m_is(bit):
    def f(I, st, av, ins):
        _ct_obj(st); c = av[0]
        off = t.add(t.mul(t.sext(c, 32, 64), 2, 64), 256, 64)
        if type(off) is int:
            off = off - (1 << 64) if off >> 63 else off
        try: v = I.load(st, P("ctype_b", off), 2)
        except ForkLoad as e:
            raise Limit("ctype argument")
        return t.zext(t.band(v, bit, 16), 16, 32)
    return f
def m_tocase(lo, hi, d):
    def f(I, st, av, ins):
        c = av[0]
        if c is UND: I.event(st, "uninit", "character argument")
        if type(c) is int: return (c + d) & M[32] if lo <= c <= hi else c
        if c.sym is not None: return t.from_table(c.sym, [(v + d) & M[32] if lo <= v <= hi else v for v in t.table(c, c.sym)], 32)
        k = t.band(t.ult(lo - 1, c, 32), t.ult(c, hi + 1, 32), 1)
        return t.ite(k, t.add(c, d & M[32], 32), c, 32)
    return f

# ---- output
def cstr(st, I, p, lim=100000):
    out = []
    if type(p) is not P: I.event(st, "null", "string argument")
    off = p.off
    while True:
        I.check(st, P(p.o, off), 1, False)
        v = st.rd(p.o, off)
        if v is None: I.event(st, "uninit", "string argument not initialised")
        if type(v) is T:
            z = I.decide(st, t.eq(v, 0, 8))
            if z is None: raise Limit("symbolic string")
            if z: return out
        elif v == 0: return out
        out.append(v); off += 1
def emit(st, stream, data):
    """append bytes to the per-stream log, merging consecutive writes"""
    if st.log and st.log[-1][0] == "out" and st.log[-1][1] == stream:
        st.log[-1] = ("out", stream, st.log[-1][2] + tuple(data))
    else: st.log.append(("out", stream, tuple(data)))
def stream_of(I, st, f):
    if type(f) is T:
        for s in t.support(f):
            n = str(s.a[0])
            if "stdout" in n: return "stdout"
            if "stderr" in n: return "stderr"
    return "file"
def m_fwrite(I, st, av, ins):
    a = conc(I, st, av, 1); b = conc(I, st, av, 2); n = a * b
    if n:
        p = concp(I, st, av, 0, n, False)
        o = I.check(st, p, n, False)
        c = I.load_cells(st, o, p.off, n)
        if c is None: I.event(st, "uninit", "writes uninitialised bytes of %s" % o.name)
        emit(st, stream_of(I, st, av[3]), c)
    return b
def hexd(v, up):
    return t.from_table(v.sym, [ord(("0123456789ABCDEF" if up else "0123456789abcdef")[k & 15]) for k in t.table(v, v.sym)], 8) if type(v) is T else ord(("0123456789ABCDEF" if up else "0123456789abcdef")[v & 15])
def fmt(I, st, f, args):
    """formatted output as a list of byte values, or None when not expressible"""
    out = []; i = 0; args = list(args)
    if any(type(c) is not int for c in f): return None
    f = bytes(f).decode("latin1")
    while i < len(f):
        if f[i] != "%": out.append(ord(f[i])); i += 1; continue
        j = i + 1
        while j < len(f) and f[j] in "0123456789#-+ .lhzjt": j += 1
        spec = f[i + 1:j]; c = f[j]; i = j + 1
        if c == "%": out.append(37); continue
        if not args: return None
        v = args.pop(0)
        if c == "c":
            out.append(t.trunc(v, 8) if type(v) is T else v & 255); continue
        if c == "s":
            if spec: return None
            out += cstr(st, I, v); continue
        flags = spec.rstrip("lhzjt"); ln = spec[len(flags):]
        if ln == "hh": v = t.zext(t.trunc(v, 8), 8, 32) if type(v) is T else v & 255
        if c in "xX" and flags in ("02", "2.2", ".2") and type(v) is T:
            if v.hi > 255: return None
            b = t.trunc(v, 8)
            if type(b) is T and b.sym is None: return None
            h = t.lshr(b, 4, 8)
            out += [hexd(h, c == "X"), hexd(b, c == "X")]; continue
        if type(v) is not int: return None
        if c in "di":
            w = 64 if "l" in ln or ln in ("z", "j", "t") else 32
            v &= M[w]; v = v - (1 << w) if v >> (w - 1) else v
        elif c in "ux":
            v &= M[64 if "l" in ln or ln in ("z", "j", "t") else 32]
        elif c != "X": return None
        try: out += list(("%" + flags + c.replace("u", "d").replace("i", "d")) .encode() and (("%" + flags + c.replace("u", "d").replace("i", "d")) % v).encode())
        except Exception: return None
    return out
def m_printf(k, stream=None):
    def f(I, st, av, ins):
        fs = cstr(st, I, av[k]); r = fmt(I, st, fs, av[k + 1:])
        s = stream or stream_of(I, st, av[0])
        if r is None:
            if s == "stderr": r = [63]
            else: raise Limit("formatted output")
        if r: emit(st, s, r)
        return len(r)
    return f
def m_snprintf(bounded):
    def f(I, st, av, ins):
        k = 2 if bounded else 1
        r = fmt(I, st, cstr(st, I, av[k]), av[k + 1:])
        if r is None: raise Limit("formatted output")
        data = r + [0]
        if bounded:
            n = conc(I, st, av, 1)
            if n == 0: return len(r)
            if len(data) > n: data = data[:n - 1] + [0]
        p = concp(I, st, av, 0, len(data), True)
        I.check(st, p, len(data), True)
        I.store_cells(st, st.wobj(p.o), p.off, data)
        return len(r)
    return f
def m_putc(I, st, av, ins):
    v = av[0]; s = "stdout" if len(av) == 1 else stream_of(I, st, av[1])
    emit(st, s, [t.trunc(v, 8) if type(v) is T else v & 255]); return v
def m_puts(I, st, av, ins):
    emit(st, "stdout", cstr(st, I, av[0]) + [10]); return 1
def m_fputs(I, st, av, ins):
    r = cstr(st, I, av[0])
    if r: emit(st, stream_of(I, st, av[1]), r)
    return 1
def m_zero(I, st, av, ins): return 0

# ---- process end
def m_exit(I, st, av, ins):
    v = av[0] if av else 0
    raise Stop("exit", v)
def m_abort(I, st, av, ins): raise Stop("abort", "abort")
def m_assert(I, st, av, ins):
    msg = ""
    try: msg = bytes(cstr(st, I, av[0])).decode("latin1")
    except Exception: pass
    fn, fi, ln = I.loc(st)
    raise Stop("assert", "%s:%s:%d %s" % (fn, fi, ln, msg))

# ---- operating system
def m_errno(I, st, av, ins):
    if "errno" not in st.mem:
        o = st.new_obj("errno", 4, "libc")
        for i in range(4): o.cells[i] = 0
    return P("errno", 0)
def set_errno(st, v):
    if "errno" not in st.mem: st.new_obj("errno", 4, "libc")
    o = st.wobj("errno")
    for i in range(4): o.cells[i] = (v >> (8 * i)) & 255
def m_strerror(I, st, av, ins):
    if "strerror" not in st.mem:
        o = st.new_obj("strerror", 6, "libc", None, True)
        for i, c in enumerate(b"error\0"): o.cells[i] = c
    return P("strerror", 0)
def m_open(I, st, av, ins):
    path = cstr(st, I, av[0])
    nm = bytes(path).decode("latin1") if all(type(c) is int for c in path) else "?"
    bad = st.clone(); set_errno(bad, 24)
    k = st.tags.get("nopen", 0); st.tags["nopen"] = k + 1
    # the kernel hands out the lowest free descriptor: any non-negative one, zero included
    fd = t.sym("fd%d" % k, 32, lo=0, hi=0x7fffffff)
    st.tags["fd%d" % k] = "open"; st.log.append(("open", nm, k))
    I.stats["forks"] += 1
    return [(st, fd), (bad, M[32])]
def fdno(fd):
    if type(fd) is T and fd.op == "sym" and str(fd.a[0]).startswith("fd"): return str(fd.a[0])
    return None
def m_close(I, st, av, ins):
    k = fdno(av[0])
    if k is None: I.event(st, "bad-close", "close of a value that open did not return")
    if st.tags.get(k) != "open": I.event(st, "double-close", "descriptor closed twice")
    st.tags[k] = "closed"; st.log.append(("close", k))
    return 0
def fill_random(I, st, p, off, n):
    """n bytes delivered by the OS generator at p"""
    o = st.wobj(p.o); pos = st.tags.get("nrand", 0)
    I.store_cells(st, o, p.off, [t.sym(t.PHASE[0] + "rand[%d]" % (pos + i), 8, taint=getattr(I, "rand_taint", 0)) for i in range(n)])
    st.tags["nrand"] = pos + n
def fail_budget(st, n=2):
    k = st.tags.get("nfail", 0); st.tags["nfail"] = k + 1
    return k < n
def m_read(I, st, av, ins):
    k = fdno(av[0])
    if k is None or st.tags.get(k) != "open": I.event(st, "bad-fd", "read from a descriptor that is not open")
    n = conc(I, st, av, 2)
    if type(n) is int and n >> 63: raise Limit("huge read")
    out = []
    if n:
        p = concp(I, st, av, 1, n, True); I.check(st, p, n, True)
    # every count the call may deliver
    ks = range(1, n + 1) if n <= getattr(I, "read_all", 40) else sorted({1, 2, n // 2, n - 1, n})
    for r in ks:
        s2 = st.clone(); fill_random(I, s2, p, 0, r); out.append((s2, r))
    e = st.clone(); ef = fail_budget(e)
    if ef:
        s2 = e.clone(); out.append((s2, 0))
        for en in (4, 5):
            s2 = e.clone(); set_errno(s2, en); out.append((s2, M[64]))
    else:
        s2 = e.clone(); s2.end = "cut"; s2.rv = "failure budget"; out.append((s2, 0))
    I.stats["forks"] += len(out) - 1
    return out
def m_getrandom(I, st, av, ins):
    n = conc(I, st, av, 1); out = []
    if n: p = concp(I, st, av, 0, n, True); I.check(st, p, n, True)
    if n == 0: return 0
    for r in (range(1, n + 1) if n <= 40 else sorted({1, n // 2, n - 1, n})):
        s2 = st.clone(); fill_random(I, s2, p, 0, r); out.append((s2, r))
    e = st.clone()
    if fail_budget(e): set_errno(e, 4); out.append((e, M[64]))
    else: e.end = "cut"; out.append((e, 0))
    return out
def m_getentropy(I, st, av, ins):
    n = conc(I, st, av, 1)
    p = concp(I, st, av, 0, n, True)
    if n: I.check(st, p, n, True)
    bad = st.clone(); set_errno(bad, 5); fill_random(I, st, p, 0, n)
    return [(st, 0), (bad, M[32])]

MODELS = {
    "malloc": m_malloc, "calloc": m_calloc, "free": m_free, "realloc": m_realloc, "memcmp": m_memcmp, "bcmp": m_memcmp,
    "memset": m_mem("set"), "memcpy": m_mem("cpy"), "memmove": m_mem("cpy"), "bzero": m_bzero, "explicit_bzero": m_explicit_bzero,
    "__ctype_b_loc": m_ctype("ctype_ptr"), "__ctype_tolower_loc": m_ctype("ctype_lower_ptr"), "__ctype_toupper_loc": m_ctype("ctype_upper_ptr"),
    "tolower": m_tocase(65, 90, 32), "toupper": m_tocase(97, 122, -32),
    "isspace": m_is(0x2000), "isdigit": m_is(0x800), "isxdigit": m_is(0x1000), "isupper": m_is(0x100), "islower": m_is(0x200),
    "isalpha": m_is(0x400), "isalnum": m_is(0x8), "isprint": m_is(0x4000), "isgraph": m_is(0x8000), "ispunct": m_is(0x4), "iscntrl": m_is(0x2),
    "fwrite": m_fwrite, "fprintf": m_printf(1), "printf": m_printf(0, "stdout"), "snprintf": m_snprintf(True), "sprintf": m_snprintf(False),
    "putchar": m_putc, "fputc": m_putc, "putc": m_putc, "puts": m_puts, "fputs": m_fputs, "fflush": m_zero,
    "vfprintf": lambda I, st, av, ins: (emit(st, stream_of(I, st, av[0]), [63]), 1)[1],
    "exit": m_exit, "_exit": m_exit, "_Exit": m_exit, "quick_exit": m_exit, "abort": m_abort, "__assert_fail": m_assert,
    "__errno_location": m_errno, "strerror": m_strerror, "open": m_open, "open64": m_open, "close": m_close, "read": m_read,
    "getrandom": m_getrandom, "getentropy": m_getentropy,
}
