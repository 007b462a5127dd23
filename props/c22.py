"""C22: library calls share no hidden mutable state (interprocedural effect analysis)."""
import os, re, glob, time
import check, llvmir
from llvmir import GRef, FRef, AsmRef, AnalysisError
LEVEL = "proof"
EXPLAIN = ("for every public function the functions it can reach are analysed with an inclusion-based points-to analysis over the compiled IR (one solution per public function, so callers do not mix); "
           "no store, memory intrinsic, atomic or external call reachable from it may write a non-constant global, static or thread-local object of the library, change a shared curve-library context, or use a C "
           "library facility with hidden state; only fingera_btc_key_init and fingera_btc_key_uninit are exempt from the first two rules")
ASSUME = ["external functions write only through the pointers they are given", "libsecp256k1 contexts are written by create, clone, destroy, randomize and the set_*_callback functions only, as documented",
          "a function that never returns may use strerror: the process ends there"]
EXEMPT = ("fingera_btc_key_init", "fingera_btc_key_uninit")
HIDDEN = set("""strtok strerror strsignal localtime gmtime ctime asctime rand srand random srandom initstate setstate drand48 erand48 lrand48 nrand48 mrand48 jrand48 srand48 seed48 lcong48
tmpnam tempnam mktemp ttyname getlogin getpwnam getpwuid getgrnam getgrgid gethostbyname gethostbyaddr getservbyname inet_ntoa inet_ntop6 mblen mbtowc wctomb mbrlen mbrtowc wcrtomb setlocale localeconv
ecvt fcvt basename dirname l64a crypt encrypt setkey ptsname readdir hcreate hsearch hdestroy getopt getopt_long nl_langinfo lgamma lgammaf lgammal getenv setenv putenv unsetenv clearenv
time clock gettimeofday clock_gettime times getrusage umask chdir signal sigaction alarm setitimer atexit on_exit catgets fgetgrent getdate strfmon tzset mktime
gets getchar putchar_unlocked sleep usleep pthread_setspecific pthread_key_create tls_create secure_getenv arc4random getpid getppid""".split())
CTXW = re.compile(r"^secp256k1_context_(create|clone|destroy|randomize|set_.*|preallocated_.*)$")
READS = set("""memcmp memchr memrchr strlen strnlen strcmp strncmp strchr strrchr isspace isdigit isalpha isalnum isxdigit isupper islower isprint toupper tolower __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
puts putchar exit abort _exit open close __assert_fail __errno_location free strspn strcspn strstr write fputs fflush""".split())
DST0 = set("memcpy memmove memset strcpy strncpy strcat strncat stpcpy sprintf snprintf vsprintf vsnprintf explicit_bzero bzero __memcpy_chk __memset_chk __memmove_chk __sprintf_chk __snprintf_chk getrandom getentropy".split())
ALLOC = set("malloc calloc realloc aligned_alloc strdup strndup secp256k1_context_create secp256k1_context_clone".split())
RET0 = set("memcpy memmove memset strcpy strncpy strcat strncat memchr memrchr strchr strrchr realloc strstr".split())
X = ("caller memory",)

class FnC(object):
    """constraints of one function"""
    def __init__(s, mod, fn):
        s.copy = []; s.load = []; s.store = []; s.calls = []; s.base = []; s.writes = []; s.rets = []; s.nret = 0; s.n = 0
        r = lambda i: ("r", fn.name, i)
        consts = {}
        for slot, c, w in fn.const_slots:
            if isinstance(c, GRef): s.base.append((r(slot), ("g", c.name)))
            elif isinstance(c, FRef): s.base.append((r(slot), ("f", c.name)))
            consts[slot] = c
        s.params = [r(i) for i in range(fn.nparams)]
        for b in fn.blocks:
            for i in b.phis:
                for v in i.x.values(): s.copy.append((r(v), r(i.dst)))
            for i in b.ins:
                s.n += 1; loc = (fn.name, i.file or fn.file, i.line)
                if i.op == "alloca": s.base.append((r(i.dst), ("a", fn.name, i.dst)))
                elif i.op == "load":
                    if i.x >= 8: s.load.append((r(i.ops[0]), r(i.dst)))
                elif i.op == "store":
                    if i.x >= 8: s.store.append((r(i.ops[1]), r(i.ops[0])))
                    s.writes.append((r(i.ops[1]), "store", loc))
                elif i.op == "call": 
                    callee, ws = i.x
                    if type(callee) is AsmRef:
                        if "memory" in callee.text and "~{memory}" not in callee.text or re.search(r'"[^"]*=\*?m', callee.text):
                            for a in i.ops: s.writes.append((r(a), "asm", loc))
                        continue
                    s.calls.append((callee.name if type(callee) is FRef else ("p", r(callee)), [r(a) if a is not None else None for a in i.ops], r(i.dst), loc))
                elif i.op == "ret":
                    s.nret += 1
                    for a in i.ops: s.rets.append(r(a))
                elif i.op.startswith("opcode") or i.op == "vaarg":     # atomics and the like: every operand may be written
                    for a in i.ops: s.writes.append((r(a), i.op, loc)); s.copy.append((r(a), r(i.dst)))
                elif i.op in ("icmp", "br", "switch", "unreachable", "fence"): pass
                elif i.op == "gep": s.copy.append((r(i.ops[0]), r(i.dst)))
                else:
                    for a in i.ops: s.copy.append((r(a), r(i.dst)))

class Solve(object):
    def __init__(s, mod, cons, root):
        s.mod = mod; s.cons = cons; s.pts = {}; s.edges = {}; s.seen = []; s.parent = {root: None}; s.via = {}
        s.work = []; s.loads = {}; s.stores = {}; s.icalls = {}; s.ext = []
        s.reach(root)
        for p in cons[root].params: s.add(p, X)
        s.add(("c", X), X)
        for n, g in mod.globals.items():
            for k, v in g.cells.items():
                if type(v) is tuple and v[0] == "P" and v[2] == 0:
                    if isinstance(v[1], GRef): s.add(("c", ("g", n)), ("g", v[1].name))
                    elif isinstance(v[1], FRef): s.add(("c", ("g", n)), ("f", v[1].name))
            if g.decl: s.add(("c", ("g", n)), X)
        s.run()
    def reach(s, fn):
        s.seen.append(fn); c = s.cons[fn]
        for n, o in c.base: s.add(n, o)
        for a, b in c.copy: s.edge(a, b)
        for p, d in c.load: s.loads.setdefault(p, []).append(d); s.redo(p)
        for p, v in c.store: s.stores.setdefault(p, []).append(v); s.redo(p)
        for callee, args, dst, loc in c.calls:
            if type(callee) is tuple: s.icalls.setdefault(callee[1], []).append((args, dst, loc, fn)); s.redo(callee[1])
            else: s.call(fn, callee, args, dst, loc)
    def redo(s, n):
        for o in list(s.pts.get(n, ())): s.work.append((n, o))
    def add(s, n, o):
        p = s.pts.setdefault(n, set())
        if o not in p: p.add(o); s.work.append((n, o))
    def edge(s, a, b):
        if a is None or b is None: return
        e = s.edges.setdefault(a, set())
        if b not in e:
            e.add(b)
            for o in list(s.pts.get(a, ())): s.add(b, o)
    def call(s, fn, callee, args, dst, loc):
        f = s.mod.funcs.get(callee)
        if f is not None and not f.decl and callee in s.cons:
            if callee not in s.parent: s.parent[callee] = (fn, loc); s.reach(callee)
            c = s.cons[callee]
            for a, p in zip(args, c.params): s.edge(a, p)
            for r in c.rets: s.edge(r, dst)
            return
        s.ext.append((fn, callee, args, loc))
        base = callee[5:].split(".")[0] if callee.startswith("llvm.") else callee
        if base in ALLOC: s.add(dst, ("h", fn, dst[2]))
        if base in RET0: s.edge(args[0], dst)
        if callee.startswith("llvm."):
            for a in args: s.edge(a, dst)
        if base in ("memcpy", "memmove", "strcpy", "strncpy"):
            t = ("m", loc, callee, dst)
            s.loads.setdefault(args[1], []).append(t); s.redo(args[1])
            s.stores.setdefault(args[0], []).append(t); s.redo(args[0])
        elif base not in ALLOC and base not in RET0 and base not in READS and base not in DST0 and not callee.startswith("llvm."):
            s.add(dst, X)
    def run(s):
        while s.work:
            n, o = s.work.pop()
            for b in list(s.edges.get(n, ())): s.add(b, o)
            if o[0] != "f":
                for d in s.loads.get(n, ()): s.edge(("c", o), d)
                for v in s.stores.get(n, ()): s.edge(v, ("c", o))
            elif n in s.icalls:
                for args, dst, loc, fn in list(s.icalls[n]):
                    k = (n, o, loc, dst)
                    if k not in s.via: s.via[k] = 1; s.call(fn, o[1], args, dst, loc)
    def chain(s, fn):
        out = [fn]
        while s.parent.get(fn): fn = s.parent[fn][0]; out.append(fn)
        return " <- ".join(out)

def own(mod, o):
    """a mutable object of the library"""
    if o[0] != "g": return None
    g = mod.globals.get(o[1])
    return g if g is not None and not g.decl and not g.const else None
def effects(mod, cons, sv):
    """(kind, text, loc, function) of the forbidden effects; number of obligations"""
    out = []; n = 0
    for fn in sv.seen:
        for p, kind, loc in cons[fn].writes:
            n += 1
            for o in sv.pts.get(p, ()):
                g = own(mod, o)
                if g is not None: out.append(("write", "writes the %s object %s" % ("thread-local" if g.tls else "static", g.name), loc, fn))
    for fn, callee, args, loc in sv.ext:
        n += 1
        base = callee[5:].split(".")[0] if callee.startswith("llvm.") else callee
        if callee.startswith("llvm.") and base not in ("memcpy", "memmove", "memset"): continue
        if base in HIDDEN and not (base == "strerror" and cons[fn].nret == 0): out.append(("facility", "calls %s, which keeps or reads state outside its arguments" % base, loc, fn))
        if CTXW.match(base): out.append(("context", "calls %s" % base, loc, fn))
        w = [0] if base in DST0 else [] if base in READS else range(len(args))
        if base == "realloc": w = [0]
        for k in w:
            if k >= len(args) or args[k] is None: continue
            for o in sv.pts.get(args[k], ()):
                g = own(mod, o)
                if g is not None: out.append(("write", "lets %s write the %s object %s" % (base, "thread-local" if g.tls else "static", g.name), loc, fn))
    return out, n
def headers():
    txt = ""
    for p in glob.glob(os.path.join(llvmir.REPO, "include", "**", "*.h"), recursive=True): txt += open(p, errors="replace").read()
    return set(re.findall(r"\b([A-Za-z_]\w*)\s*\(", txt))
def main(t0):
    mod = check.load_module(); tot = check.Result()
    fns = [n for n, f in mod.funcs.items() if not f.decl]
    cons = {n: FnC(mod, mod.funcs[n]) for n in fns}
    lib = [n for n in fns if not n.startswith(("w_", "o_", "z_")) and not (mod.funcs[n].file or "").endswith("libc_model.c")]
    hdr = headers()
    pub = [n for n in lib if mod.funcs[n].linkage == 0 and n in hdr] + [n for n in fns if n.startswith("w_")]
    if not all(e in pub for e in EXEMPT) or len(pub) < 40: raise AnalysisError("public functions not found (%d)" % len(pub))
    reached = set(); stores = 0; seen = set(); facts = []
    todo = list(pub); init_only = set()
    for root in EXEMPT: init_only |= set(Solve(mod, cons, root).seen)
    for n in lib:
        if n not in pub and mod.funcs[n].linkage == 0 and n not in init_only: todo.append(n)
    for root in todo:
        sv = Solve(mod, cons, root); reached |= set(sv.seen); tot.cases += 1; tot.labels.append(root)
        eff, n = effects(mod, cons, sv); tot.obl += n; stores += n
        for kind, text, loc, fn in eff:
            if root in EXEMPT and kind in ("write", "context"): facts.append("%s: %s" % (root, text)); continue
            k = (text, loc)
            if k in seen: continue
            seen.add(k)
            tot.viol.append(dict(case=root, entry=root, kind=kind, what="hidden state", detail="%s (reached by %s)" % (text, sv.chain(fn)), where="%s:%s in %s" % (loc[1], loc[2], loc[0]), more=[], witness={}))
    if not any("writes the static object" in f or "thread-local" in f or "lets" in f for f in facts): tot.notes.append("no write by the init routine was recognised")
    tot.ident = tot.obl; tot.funcs = reached; tot.slow = []
    extra = dict(public_functions=len(pub), roots=len(todo), functions_with_internal_linkage_reached=sum(1 for f in reached if mod.funcs[f].linkage != 0), write_and_call_sites_checked=stores,
                 mutable_objects=sorted(g.name for g in mod.globals.values() if not g.decl and not g.const), exempt_effects=sorted(set(facts)))
    return check.report("C22", tot, mod, LEVEL, EXPLAIN, ASSUME, time.time() - t0, extra)
