"""C21: OS randomness is delivered complete or the process ends."""
import terms as t
import libc
from terms import M
from check import Case
from interp import P, Limit, Stop, ForkArg
SEQ = False
LEVEL = "other"
EXPLAIN = ("the routine is interpreted with the operating system's calls abstracted to every outcome they document: open yields any descriptor (zero included) or fails, each read delivers any "
           "count from 1 to the requested one (every count for requests up to 40 bytes, the extremes and the middle above, the kernel's 0x7ffff000 cap for huge ones), end of file, "
           "an interruption or an I/O error that persists.  A return is accepted only with every requested byte delivered by the generator and the descriptor closed, the end of the process "
           "only after a failed call, and persistent failure must end the process.  The fatal-error routine is interpreted for every errno and must not return on any path")
ASSUME = ["open/read/close behave as POSIX and Linux document (read returns at most the requested count and at most 0x7ffff000)", "/dev/urandom, /dev/random and getrandom are the operating system's generator",
          "request sizes are enumerated; at most two interruptions and, for requests over 40 bytes, three short reads per call are followed"]
CAP = 0x7ffff000
STUCK = 64

def fill(I, st, p, n):
    if p is None or n == 0: return
    pos = st.tags.get("nrand", 0); st.tags["nrand"] = pos + n
    if st.mem[p.o].size <= 4096:
        o = st.wobj(p.o); I.store_cells(st, o, p.off, [t.sym("rand[%d]" % (pos + i), 8) for i in range(n)])
    elif st.log and st.log[-1][0] == "rd" and st.log[-1][1] + st.log[-1][2] == p.off: st.log[-1] = ("rd", st.log[-1][1], st.log[-1][2] + n)
    else: st.log.append(("rd", p.off, n))
def outcomes(I, st, p, n, err, eof=True, shorts=True):
    """states of one read-like call: short counts, the full count and the failures"""
    if st.tags.get("stuck"):
        k = st.tags["stuck"] = st.tags["stuck"] + 1
        if k > STUCK: I.event(st, "endless-retry", "the generator keeps failing and the process neither ends nor returns")
        if err is None or st.tags["eof"]: return [(st, 0)]
        libc.set_errno(st, 5); return [(st, err)]
    full = min(n, CAP)
    small = n <= 40 and st.tags.get("all", 1)
    ks = range(1, full + 1) if small else sorted({1, full // 2, full - 1} - {0})
    out = []
    if shorts:
        if not small:
            k = st.tags.get("shorts", 0)
            ks = list(ks) if k < 3 else []
        for r in ks:
            if r == full: continue
            s2 = st.clone(); fill(I, s2, p, r)
            if not small: s2.tags["shorts"] = s2.tags.get("shorts", 0) + 1
            out.append((s2, r))
    if eof:
        s2 = st.clone(); s2.tags["stuck"] = 1; s2.tags["eof"] = True; s2.tags["failed"] = True; out.append((s2, 0))
    if err is not None:
        s2 = st.clone(); s2.tags["stuck"] = 1; s2.tags["eof"] = False; s2.tags["failed"] = True; libc.set_errno(s2, 5); out.append((s2, err))
        if st.tags.get("intr", 0) < 2:
            s2 = st.clone(); s2.tags["intr"] = s2.tags.get("intr", 0) + 1; s2.tags["failed"] = True; libc.set_errno(s2, 4); out.append((s2, err))
    fill(I, st, p, full); out.append((st, full))
    I.stats["forks"] += len(out) - 1
    return out
def buf(I, st, av, i, n):
    if n == 0: return None
    p = libc.concp(I, st, av, i, min(n, CAP), True); I.check(st, p, n, True); return p
def m_open(I, st, av, ins):
    r = libc.m_open(I, st, av, ins)
    r[1][0].tags["failed"] = True
    return r
def m_read(I, st, av, ins):
    k = libc.fdno(av[0])
    if k is None or st.tags.get(k) != "open": I.event(st, "bad-fd", "read from a descriptor that is not open")
    n = libc.conc(I, st, av, 2)
    if n > 1 << 40: I.event(st, "out-of-bounds", "read of %d bytes" % n)
    p = buf(I, st, av, 1, n)
    return outcomes(I, st, p, n, M[64]) if n else 0
def m_getrandom(I, st, av, ins):
    n = libc.conc(I, st, av, 1); p = buf(I, st, av, 0, n)
    return outcomes(I, st, p, n, M[64], eof=False) if n else 0
def m_fopen(I, st, av, ins):
    r = m_open(I, st, av, ins)
    s2, fd = r[0]; o = s2.new_obj("stream%d" % s2.tags["nopen"], 1, "libc"); o.meta = libc.fdno(fd)
    return [(s2, P(o.id, 0)), (r[1][0], 0)]
def stream(I, st, p):
    k = st.mem[p.o].meta if type(p) is P else None
    if not k or st.tags.get(k) != "open": I.event(st, "bad-fd", "use of a stream that is not open")
    return k
def m_fread(I, st, av, ins):
    stream(I, st, av[3]); a = libc.conc(I, st, av, 1); b = libc.conc(I, st, av, 2)
    p = buf(I, st, av, 0, a * b)
    if not a * b: return 0
    r = outcomes(I, st, p, a * b, None)
    return [(s2, n // a) for s2, n in r]
def m_fclose(I, st, av, ins):
    k = stream(I, st, av[0]); st.tags[k] = "closed"; st.log.append(("close", k)); return 0
MODELS = dict(open=m_open, open64=m_open, read=m_read, getrandom=m_getrandom, fopen=m_fopen, fopen64=m_fopen, fread=m_fread, fclose=m_fclose,
              setvbuf=libc.m_zero, setbuf=libc.m_zero)
G = 8
def case(n, allk=True):
    def build(env):
        env.st.tags["all"] = 1 if allk else 0
        p = env.output("buf", n + 2 * G)
        return [P(p.o, G), n]
    def spec(env, st, o):
        if st.end in ("exit", "abort"):
            if st.tags.get("failed"): o.ok()
            else: o.fail("termination", "the process ends although no call failed")
            return
        for e in st.log:
            if e[0] == "open" and e[1] not in ("/dev/urandom", "/dev/random", "/dev/hwrng"): o.fail("source", "reads %s" % e[1])
        for k, v in st.tags.items():
            if k.startswith("fd") and v != "closed": o.fail("descriptor", "returns without closing the descriptor", st.trace)
        if n + 2 * G <= 4096:
            seen = set()
            for i in range(n):
                v = st.rd("buf", G + i)
                if type(v) is not t.T or v.op != "sym" or not str(v.a[0]).startswith("rand["):
                    o.fail("byte %d of %d" % (i, n), "was not filled from the generator", st.trace); break
                if v in seen: o.fail("byte %d of %d" % (i, n), "repeats another delivered byte", st.trace); break
                seen.add(v); o.ok()
        else:
            iv = sorted((a - G, a - G + k) for e in st.log if e[0] == "rd" for a, k in [e[1:]]); pos = 0
            for a, b in iv:
                if a > pos: break
                pos = max(pos, b)
            if pos < n: o.fail("byte %d of %d" % (pos, n), "was not filled from the generator", st.trace)
            elif iv and (iv[0][0] < 0 or max(b for a, b in iv) > n): o.fail("buffer", "written outside the requested range", st.trace)
            else: o.ok(len(iv) + 1)
        o.untouched("before buffer", "buf", 0, G); o.untouched("after buffer", "buf", n + G, n + 2 * G); 
    return Case("rand_bytes n=%d%s" % (n, "" if allk else " (extreme counts)"), "fingera_os_rand_bytes", build, spec, ends=("ret", "exit", "abort"), models=MODELS, nopin=True, cost=n if n < 100 else 1)
def fatal(en):
    def build(env):
        libc.set_errno(env.st, en)
        f, g, m = (env.const(k, v.encode() + b"\0") for k, v in (("func", "caller"), ("file", "x.c"), ("msg", "message")))
        return [f, g, 7, m]
    def spec(env, st, o):
        if st.end == "ret": o.fail("termination", "the fatal-error routine returns to its caller", st.trace)
        else: o.ok()
    return Case("fatal errno=%d" % en, "fingera_fatal", build, spec, ends=("ret", "exit", "abort"), must_return=False, nopin=True)
def fatal_sym():
    def build(env):
        b = [env.sy("errno[%d]" % i) for i in range(4)]
        libc.set_errno(env.st, 0); o = env.st.wobj("errno")
        for i in range(4): o.cells[i] = b[i]
        f, g, m = (env.const(k, v.encode() + b"\0") for k, v in (("func", "caller"), ("file", "x.c"), ("msg", "message")))
        return [f, g, env.num("line", 64), m]
    def spec(env, st, o):
        if st.end == "ret": o.fail("termination", "the fatal-error routine returns to its caller", st.trace)
        else: o.ok()
    return Case("fatal, any errno and line", "fingera_fatal", build, spec, ends=("ret", "exit", "abort"), must_return=False, nopin=True)
def cases(thorough, mod):
    L = [0, 1, 2, 3, 4, 5, 8, 16, 20, 31, 32, 33, 40] + ([24, 28, 36, 48, 64] if thorough else [])
    B = [41, 64, 100, 255, 256, 257, 512, 1000, 4096, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1, 1 << 31, CAP, CAP + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 5]
    return [case(n) for n in L] + [case(n, False) for n in [32, 40] + B] + [fatal(0), fatal(2), fatal(0x7fffffff), fatal_sym()]
