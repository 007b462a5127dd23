"""C37: a fatal error is reported in full on standard error and ends the process with failure."""
import terms as t
import libc
from check import Case
from interp import P, Limit, Stop
SEQ = False
LEVEL = "other"
EXPLAIN = ("the fatal-error routine is interpreted with the errno of the moment of the call, the location and the message as constants of the partition, and with every stdio call free to change errno; what reaches "
           "standard error before the process ends is searched for the message, its arguments' conversion, the place and the original errno with its text; the path may not return, may not end with a success status "
           "and may write nothing to standard output.  A failing open in the random generator is followed through the FINGERA_FATAL macro to the same report")
ASSUME = ["stdio writes deliver the bytes they are given", "the wording around the reported items is free", "messages up to 200 characters"]

def noisy(f):
    """a library call that works and leaves some errno behind"""
    def g(I, st, av, ins):
        r = f(I, st, av, ins); libc.set_errno(st, 77); return r
    return g
def expand(I, st, p):
    """a format whose arguments travel in a va_list: each conversion shows as <conversion>"""
    f = libc.cstr(st, I, p)
    if any(type(c) is not int for c in f): raise Limit("format")
    s = bytes(f).decode("latin1"); out = ""; i = 0
    while i < len(s):
        if s[i] != "%": out += s[i]; i += 1; continue
        j = i + 1
        while j < len(s) and s[j] in "0123456789#-+ .lhzjt": j += 1
        if j >= len(s): break
        out += "%" if s[j] == "%" else "<%s>" % s[j]; i = j + 1
    return [ord(c) for c in out]
def m_vfprintf(I, st, av, ins):
    r = expand(I, st, av[1])
    if r: libc.emit(st, libc.stream_of(I, st, av[0]), r)
    return len(r)
def m_vsnprintf(I, st, av, ins):
    r = expand(I, st, av[2]); n = libc.conc(I, st, av, 1)
    if n:
        d = r[:n - 1] + [0]; p = libc.concp(I, st, av, 0, len(d), True); I.check(st, p, len(d), True); I.store_cells(st, st.wobj(p.o), p.off, d)
    return len(r)
def m_strerror(I, st, av, ins):
    if type(av[0]) is not int: raise Limit("strerror")
    d = b"[text of error %d]\0" % (av[0] & 0xffffffff)
    k = "strerror%d" % (av[0] & 0xffffffff)
    if k not in st.mem:
        o = st.new_obj(k, len(d), "libc", None, True)
        for i, c in enumerate(d): o.cells[i] = c
        return P(o.id, 0)
    return P(k, 0)
MODELS = dict(vfprintf=noisy(m_vfprintf), vsnprintf=noisy(m_vsnprintf), strerror=noisy(m_strerror), fprintf=noisy(libc.m_printf(1)), fputs=noisy(libc.m_fputs), fflush=noisy(libc.m_zero),
             fwrite=noisy(libc.m_fwrite), snprintf=noisy(libc.m_snprintf(True)), fputc=noisy(libc.m_putc), putc=noisy(libc.m_putc))
def report(st):
    got = []
    for e in st.log:
        if e[0] == "out" and e[1] == "stderr": got += [c if type(c) is int else 63 for c in e[2]]
    return bytes(got).decode("latin1")
def judge(st, o, items, stdout=True):
    if st.end == "ret": o.fail("termination", "the fatal-error routine returns to its caller", st.trace); return
    if st.end == "exit" and type(st.rv) is int and st.rv & 255 == 0: o.fail("status", "the process ends with a success status"); return
    o.ok()
    r = report(st)
    for what, s in items:
        if s in r: o.ok()
        else: o.fail("report", "standard error does not show %s (%s)" % (what, s))
    if any(e[0] == "out" and e[1] == "stdout" for e in st.log): o.fail("report", "writes to standard output")
    else: o.ok()
def fatal(en, line, msg, func="caller_of_it", file="some/file.c"):
    def build(env):
        libc.set_errno(env.st, en)
        f, g, m = (env.const(k, v.encode() + b"\0") for k, v in (("func", func), ("file", file), ("msg", msg)))
        return [f, g, line, m]
    shown = msg
    for c in "dsux": shown = shown.replace("%" + c, "<%s>" % c)
    shown = shown.replace("%lu", "<u>").replace("%%", "%")
    items = [("the message", shown), ("the function", func), ("the file", file), ("the line", str(line))]
    if en: items += [("the error number", str(en)), ("the error's text", "[text of error %d]" % en)]
    def spec(env, st, o): judge(st, o, items)
    return Case("fatal errno=%d line=%d message %s" % (en, line, msg[:24]), "fingera_fatal", build, spec, ends=("ret", "exit", "abort"), must_return=False, nopin=True, models=MODELS)
def m_open(I, st, av, ins):
    libc.set_errno(st, 24); st.tags["unopened"] = True; return 0xffffffff
def rand_open(n):
    def build(env): return [env.output("buf", n), n]
    def spec(env, st, o):
        if st.tags.get("unopened"): judge(st, o, [("the error number", "24"), ("the error's text", "[text of error 24]")])
        else: o.ok()
    return Case("random generator cannot be opened, %d bytes" % n, "fingera_os_rand_bytes", build, spec, ends=("ret", "exit", "abort"), must_return=False, nopin=True, models=dict(MODELS, open=m_open, open64=m_open))
def cases(thorough, mod):
    out = []
    for en in (0, 1, 2, 5, 11, 12, 24, 104, 133, 255, 256, 4096, 0x7fffffff) + (tuple(range(3, 134)) if thorough else ()):
        out.append(fatal(en, 321, "something failed"))
    for line in (1, 7, 99, 1000, 65535, 65536, 70000, 0x7fffffff): out.append(fatal(5, line, "failed"))
    for msg in ("value %d", "name %s and %d", "100%% of %lu", "a", "x" * 60, "y" * 127, "z" * 128, "w" * 200, "two\nlines", "%s"):
        out.append(fatal(0, 12, msg)); out.append(fatal(9, 12, msg))
    out.append(fatal(2, 5, "m", func="f", file="g.c")); out.append(fatal(2, 5, "m", func="f" * 100, file="d/" * 60 + "g.c"))
    for n in (1, 32): out.append(rand_open(n))
    return out
