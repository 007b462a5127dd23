"""Front end: compile /repo's library sources with clang to LLVM IR, link, promote
memory to registers, and load the module through the LLVM C API into plain Python
structures (functions, blocks, instructions with resolved operands, constants,
struct offsets and source locations).  Nothing of the code is executed."""
import ctypes as C, os, subprocess, sys, tempfile, hashlib, glob, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang-18"; OPT = "/usr/bin/opt-18"; LINK = "/usr/bin/llvm-link-18"

class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, front-end failure)."""

def library_sources():
    """The library's translation units, as CMake names them."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    i = txt.find("add_library(fingera_libc")
    if i < 0: raise AnalysisError("add_library(fingera_libc not found in CMakeLists.txt")
    body = txt[i + len("add_library(fingera_libc"): txt.find(")", i)]
    body = "\n".join(l.split("#")[0] for l in body.splitlines())
    out = [w for w in body.split() if w.endswith(".c")]
    for w in out:
        if not os.path.exists(os.path.join(REPO, w)): raise AnalysisError("missing source " + w)
    if len(out) < 10: raise AnalysisError("only %d library sources found" % len(out))
    return out

def secp_include():
    for p in ("/opt/vp", REPO + "/external/secp256k1"):
        for root, d, f in os.walk(p):
            if "secp256k1.h" in f: return root
    for p in ("/usr/include", "/usr/local/include"):
        if os.path.exists(p + "/secp256k1.h"): return p
    return "/verif/models/include"

BASE_FLAGS = ["-std=gnu99", "-I" + REPO + "/include", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "models/include")]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisError("front end failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout

def build_bitcode(workdir, extra_flags=(), opt="-O0", passes="mem2reg", sources=None, tag="m", extra_files=(), optargs=()):
    outs = []
    from concurrent.futures import ThreadPoolExecutor
    srcs = [(os.path.join(REPO, s), s.replace("/", "_")) for s in (sources or library_sources())]
    srcs += [(f, os.path.basename(f)) for f in extra_files]
    def one(sp):
        src, nm = sp
        o = os.path.join(workdir, tag + "_" + nm + ".bc")
        flags = ["-Xclang", "-disable-O0-optnone"] if opt == "-O0" else []
        run([CLANG, opt, *flags, "-gline-tables-only", "-fno-discard-value-names", "-ffp-contract=off", "-w", "-emit-llvm", "-c",
             *BASE_FLAGS, "-I" + os.path.dirname(src), *extra_flags, src, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, srcs))
    linked = os.path.join(workdir, tag + ".bc")
    run([LINK, *outs, "-o", linked])
    if passes:
        res = os.path.join(workdir, tag + ".opt.bc")
        run([OPT, "-passes=" + passes, *optargs, linked, "-o", res]); return res
    return linked

# ----------------------------------------------------------------- LLVM C API
_L = None
def L():
    global _L
    if _L is not None: return _L
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        if os.path.exists(p):
            lib = C.CDLL(p); break
    else: raise AnalysisError("libLLVM-18 not found")
    V = C.c_void_p
    def sig(name, res, *args):
        f = getattr(lib, name); f.restype = res; f.argtypes = list(args)
    sig("LLVMContextCreate", V); sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
    sig("LLVMParseBitcodeInContext2", C.c_int, V, V, C.POINTER(V))
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetInitializer",
              "LLVMGlobalGetValueType", "LLVMGetAllocatedType", "LLVMGetElementType", "LLVMGetGEPSourceElementType", "LLVMGetCalledValue", "LLVMGetBasicBlockTerminator",
              "LLVMIsAGlobalVariable", "LLVMIsAFunction", "LLVMIsAInlineAsm", "LLVMIsAConstantInt", "LLVMIsAConstantExpr", "LLVMIsAConstantPointerNull",
              "LLVMIsAConstantAggregateZero", "LLVMIsAConstantDataSequential", "LLVMIsAConstantStruct", "LLVMIsAConstantArray", "LLVMIsAUndefValue",
              "LLVMIsAArgument", "LLVMIsAInstruction", "LLVMIsABasicBlock", "LLVMIsPoison", "LLVMGetModuleDataLayout", "LLVMGetElementType", "LLVMBasicBlockAsValue",
              "LLVMGetInstructionParent", "LLVMIsAGlobalAlias", "LLVMGetCalledFunctionType", "LLVMGetReturnType"):
        sig(n, V, V)
    for n in ("LLVMGetOperand", "LLVMGetParam", "LLVMGetSuccessor", "LLVMStructGetTypeAtIndex", "LLVMGetIncomingValue", "LLVMGetIncomingBlock", "LLVMGetElementAsConstant", "LLVMGetAggregateElement"):
        sig(n, V, V, C.c_uint)
    for n in ("LLVMGetNumOperands", "LLVMGetInstructionOpcode", "LLVMGetConstOpcode", "LLVMGetICmpPredicate", "LLVMGetTypeKind", "LLVMIsDeclaration",
              "LLVMIsGlobalConstant", "LLVMGetVolatile", "LLVMGetLinkage", "LLVMIsThreadLocal", "LLVMGetNSW"):
        sig(n, C.c_int, V)
    for n in ("LLVMCountParams", "LLVMGetNumSuccessors", "LLVMGetIntTypeWidth", "LLVMCountIncoming", "LLVMGetNumIndices", "LLVMCountStructElementTypes",
              "LLVMGetArrayLength", "LLVMGetNumArgOperands", "LLVMGetDebugLocLine"):
        sig(n, C.c_uint, V)
    sig("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
    sig("LLVMGetValueName2", C.c_char_p, V, C.POINTER(C.c_size_t))
    sig("LLVMABISizeOfType", C.c_ulonglong, V, V); sig("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
    sig("LLVMGetAsString", V, V, C.POINTER(C.c_size_t))
    sig("LLVMGetRawDataValues" if hasattr(lib, "LLVMGetRawDataValues") else "LLVMGetAsString", V, V, C.POINTER(C.c_size_t))
    sig("LLVMGetDebugLocFilename", V, V, C.POINTER(C.c_uint))
    sig("LLVMPrintValueToString", C.c_char_p, V)
    sig("LLVMGetIndices", C.POINTER(C.c_uint), V)
    _L = lib
    return lib

OPC = {1: "ret", 2: "br", 3: "switch", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv", 17: "urem", 18: "srem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep",
       30: "trunc", 31: "zext", 32: "sext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 44: "phi", 45: "call", 46: "select",
       49: "vaarg", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 60: "addrspacecast", 55: "fence"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}

class Ins:
    __slots__ = ("op", "dst", "ops", "w", "w2", "x", "line", "file", "vol", "nsw", "text")
class Block:
    __slots__ = ("name", "ins", "phis", "succ", "preds", "idx", "rpo", "loops")
class Func: pass
class Glob: pass

class Ref:
    """operand: SSA register"""
    __slots__ = ("i",)
    def __init__(s, i): s.i = i
class GRef:
    __slots__ = ("name", "off")
    def __init__(s, name, off=0): s.name = name; s.off = off
class FRef:
    __slots__ = ("name",)
    def __init__(s, name): s.name = name
class Undef: pass
UNDEF = Undef()
class AsmRef:
    __slots__ = ("text",)
    def __init__(s, t): s.text = t

class Module:
    def __init__(self, path):
        l = L(); self.path = path
        ctx = l.LLVMContextCreate(); buf = C.c_void_p(); err = C.c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)): raise AnalysisError("cannot read " + path)
        mod = C.c_void_p()
        if l.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)): raise AnalysisError("cannot parse " + path)
        self.mod = mod; self.dl = l.LLVMGetModuleDataLayout(mod)
        self.globals = {}; self.funcs = {}; self._ginit = []
        self._anon = {}
        g = l.LLVMGetFirstGlobal(mod)
        while g:
            o = Glob(); o.name = self._gname(g); ty = l.LLVMGlobalGetValueType(g)
            o.size = l.LLVMABISizeOfType(self.dl, ty) if not l.LLVMIsDeclaration(g) else 0
            try: o.size = l.LLVMABISizeOfType(self.dl, ty)
            except Exception: pass
            o.const = bool(l.LLVMIsGlobalConstant(g)); o.decl = bool(l.LLVMIsDeclaration(g)); o.tls = bool(l.LLVMIsThreadLocal(g))
            o.linkage = l.LLVMGetLinkage(g); o.cells = {}; o._v = g
            self.globals[o.name] = o; g = l.LLVMGetNextGlobal(g)
        for o in self.globals.values():
            if not o.decl: self._init(l.LLVMGetInitializer(o._v), o.cells, 0)
        f = l.LLVMGetFirstFunction(mod)
        while f:
            fo = self._func(f); self.funcs[fo.name] = fo; f = l.LLVMGetNextFunction(f)

    def _name(self, v):
        n = C.c_size_t(); return L().LLVMGetValueName2(v, C.byref(n)).decode("utf8", "replace")
    def _gname(self, g):
        n = self._name(g)
        if n: return n
        key = g if isinstance(g, int) else g
        if key not in self._anon: self._anon[key] = ".anon%d" % len(self._anon)
        return self._anon[key]

    def size(self, ty): return L().LLVMABISizeOfType(self.dl, ty)

    def width(self, ty):
        l = L(); k = l.LLVMGetTypeKind(ty)
        if k == 8: return l.LLVMGetIntTypeWidth(ty)
        if k == 12: return 64
        if k == 0: return 0
        return -int(l.LLVMABISizeOfType(self.dl, ty)) if k in (10, 11) else -1

    def _init(self, v, cells, off):
        l = L(); ty = l.LLVMTypeOf(v); k = l.LLVMGetTypeKind(ty); sz = l.LLVMABISizeOfType(self.dl, ty)
        if l.LLVMIsAConstantAggregateZero(v) or l.LLVMIsAConstantPointerNull(v):
            for i in range(sz): cells[off + i] = 0
            return
        if l.LLVMIsAUndefValue(v): return
        if l.LLVMIsAConstantInt(v):
            x = l.LLVMConstIntGetZExtValue(v)
            for i in range(sz): cells[off + i] = (x >> (8 * i)) & 255
            return
        if l.LLVMIsAConstantDataSequential(v):
            et = l.LLVMGetElementType(ty); es = l.LLVMABISizeOfType(self.dl, et); n = l.LLVMGetArrayLength(ty)
            for i in range(n):
                x = l.LLVMConstIntGetZExtValue(l.LLVMGetElementAsConstant(v, i))
                for j in range(es): cells[off + i * es + j] = (x >> (8 * j)) & 255
            return
        if l.LLVMIsAConstantStruct(v):
            for i in range(l.LLVMGetNumOperands(v)):
                self._init(l.LLVMGetOperand(v, i), cells, off + l.LLVMOffsetOfElement(self.dl, ty, i))
            return
        if l.LLVMIsAConstantArray(v):
            es = l.LLVMABISizeOfType(self.dl, l.LLVMGetElementType(ty))
            for i in range(l.LLVMGetNumOperands(v)): self._init(l.LLVMGetOperand(v, i), cells, off + i * es)
            return
        c = self.const(v)
        for i in range(8): cells[off + i] = ("P", c, i)

    def const(self, v):
        """constant operand -> int | GRef | FRef | UNDEF | AsmRef"""
        l = L()
        if l.LLVMIsAConstantInt(v):
            w = l.LLVMGetIntTypeWidth(l.LLVMTypeOf(v))
            if w > 64:
                s = l.LLVMPrintValueToString(v).decode(); return int(s.split()[1]) & ((1 << w) - 1)
            return l.LLVMConstIntGetZExtValue(v)
        if l.LLVMIsAConstantPointerNull(v): return 0
        if l.LLVMIsAFunction(v): return FRef(self._name(v))
        if l.LLVMIsAGlobalVariable(v): return GRef(self._gname(v), 0)
        if l.LLVMIsAUndefValue(v): return UNDEF
        if l.LLVMIsAInlineAsm(v): return AsmRef(l.LLVMPrintValueToString(v).decode())
        if l.LLVMIsAConstantExpr(v):
            o = OPC.get(l.LLVMGetConstOpcode(v))
            if o == "gep":
                b = self.const(l.LLVMGetOperand(v, 0)); off = 0
                for kind, a, b2 in self._gep(v):
                    if kind == "c": off += a
                    else:
                        x = self.const(a); off += x * b2
                off &= (1 << 64) - 1
                if off >= 1 << 63: off -= 1 << 64
                return GRef(b.name, b.off + off)
            if o in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"): return self.const(l.LLVMGetOperand(v, 0))
        if l.LLVMIsAGlobalAlias(v): return self.const(l.LLVMGetOperand(v, 0))
        raise AnalysisError("unsupported constant: " + l.LLVMPrintValueToString(v).decode()[:200])

    def _gep(self, v):
        """list of ('c', offset, 0) or ('v', valueref, scale)"""
        l = L(); ty = l.LLVMGetGEPSourceElementType(v); res = []; n = l.LLVMGetNumOperands(v); cur = ty
        for i in range(1, n):
            o = l.LLVMGetOperand(v, i)
            if i == 1: sc = l.LLVMABISizeOfType(self.dl, cur)
            else:
                k = l.LLVMGetTypeKind(cur)
                if k == 10:
                    idx = l.LLVMConstIntGetZExtValue(o); res.append(("c", int(l.LLVMOffsetOfElement(self.dl, cur, idx)), 0))
                    cur = l.LLVMStructGetTypeAtIndex(cur, idx); continue
                cur = l.LLVMGetElementType(cur); sc = l.LLVMABISizeOfType(self.dl, cur)
            if l.LLVMIsAConstantInt(o):
                x = l.LLVMConstIntGetZExtValue(o); w = l.LLVMGetIntTypeWidth(l.LLVMTypeOf(o))
                if x >> (w - 1): x -= 1 << w
                res.append(("c", x * int(sc), 0))
            else: res.append(("v", o, int(sc)))
        return res

    def _func(self, f):
        l = L(); fo = Func(); fo.name = self._name(f); fo.decl = bool(l.LLVMIsDeclaration(f)); fo.linkage = l.LLVMGetLinkage(f)
        fo.nparams = l.LLVMCountParams(f); fo.blocks = []; fo.nregs = 0; fo.file = None; fo.line = None
        fo.pw = [self.width(l.LLVMTypeOf(l.LLVMGetParam(f, i))) for i in range(fo.nparams)]
        if fo.decl: return fo
        regs = {}
        def new(v):
            regs[v] = len(regs); return regs[v]
        for i in range(fo.nparams): new(l.LLVMGetParam(f, i))
        bbs = []; bidx = {}
        b = l.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[b] = len(bbs); bbs.append(b); b = l.LLVMGetNextBasicBlock(b)
        raw = []
        for b in bbs:
            lst = []; i = l.LLVMGetFirstInstruction(b)
            while i:
                new(i); lst.append(i); i = l.LLVMGetNextInstruction(i)
            raw.append(lst)
        consts = {}
        fo.const_slots = []
        def opnd(v):
            if v in regs: return regs[v]
            if v in consts: return consts[v]
            c = self.const(v); s = len(regs); regs[("c", v)] = s; consts[v] = s
            fo.const_slots.append((s, c, self.width(l.LLVMTypeOf(v)))); return s
        for bi, b in enumerate(bbs):
            bo = Block(); bo.idx = bi; bo.name = self._name(l.LLVMBasicBlockAsValue(b)); bo.ins = []; bo.phis = []; bo.succ = []; bo.preds = []
            for v in raw[bi]:
                I = Ins(); oc = l.LLVMGetInstructionOpcode(v); I.op = OPC.get(oc)
                if I.op is None: I.op = "opcode%d" % oc
                I.dst = regs[v]; I.ops = []; I.w2 = 0; I.x = None; I.vol = False; I.nsw = False
                I.w = self.width(l.LLVMTypeOf(v)); I.line = l.LLVMGetDebugLocLine(v)
                n = C.c_uint(); p = l.LLVMGetDebugLocFilename(v, C.byref(n)); I.file = C.string_at(p, n.value).decode() if p else ""
                if fo.line is None and I.line: fo.line = I.line; fo.file = I.file
                o = I.op
                if o == "phi":
                    I.x = {}
                    for k in range(l.LLVMCountIncoming(v)):
                        I.x[bidx[l.LLVMGetIncomingBlock(v, k)]] = opnd(l.LLVMGetIncomingValue(v, k))
                    bo.phis.append(I); continue
                if o == "br":
                    ns = l.LLVMGetNumSuccessors(v); I.x = [bidx[l.LLVMGetSuccessor(v, k)] for k in range(ns)]
                    if ns == 2: I.ops = [opnd(l.LLVMGetOperand(v, 0))]
                    bo.succ = list(I.x)
                elif o == "switch":
                    ns = l.LLVMGetNumSuccessors(v); I.ops = [opnd(l.LLVMGetOperand(v, 0))]; I.w = self.width(l.LLVMTypeOf(l.LLVMGetOperand(v, 0)))
                    dflt = bidx[l.LLVMGetSuccessor(v, 0)]; cases = []
                    for k in range(1, ns): cases.append((l.LLVMConstIntGetZExtValue(l.LLVMGetOperand(v, 2 * k)), bidx[l.LLVMGetSuccessor(v, k)]))
                    I.x = (dflt, cases); bo.succ = [dflt] + [c[1] for c in cases]
                elif o == "gep":
                    I.ops = [opnd(l.LLVMGetOperand(v, 0))]; coff = 0; var = []
                    for kind, a, sc in self._gep(v):
                        if kind == "c": coff += a
                        else: var.append((opnd(a), self.width(l.LLVMTypeOf(a)), sc))
                    I.x = (coff, var)
                elif o == "alloca":
                    cnt = l.LLVMGetOperand(v, 0); I.ops = [opnd(cnt)]; I.x = (int(l.LLVMABISizeOfType(self.dl, l.LLVMGetAllocatedType(v))), self._name(v))
                    ty = l.LLVMGetAllocatedType(v)
                    if l.LLVMGetTypeKind(ty) == 11: I.w2 = self.width(l.LLVMGetElementType(ty))
                elif o == "icmp":
                    I.x = PRED[l.LLVMGetICmpPredicate(v)]; a = l.LLVMGetOperand(v, 0); I.w2 = self.width(l.LLVMTypeOf(a))
                    I.ops = [opnd(a), opnd(l.LLVMGetOperand(v, 1))]
                elif o == "call":
                    na = l.LLVMGetNumArgOperands(v); cv = l.LLVMGetCalledValue(v)
                    if l.LLVMIsAFunction(cv): callee = FRef(self._name(cv))
                    elif l.LLVMIsAInlineAsm(cv): callee = AsmRef(l.LLVMPrintValueToString(cv).decode())
                    else: callee = opnd(cv)
                    args = []
                    ws = []
                    for k in range(na):
                        a = l.LLVMGetOperand(v, k); kt = l.LLVMGetTypeKind(l.LLVMTypeOf(a))
                        if kt in (14, 15): args.append(None); ws.append(0); continue   # metadata/token
                        args.append(opnd(a)); ws.append(self.width(l.LLVMTypeOf(a)))
                    I.ops = args; I.x = (callee, ws)
                elif o == "load":
                    I.ops = [opnd(l.LLVMGetOperand(v, 0))]; I.vol = bool(l.LLVMGetVolatile(v)); I.x = int(self.size(l.LLVMTypeOf(v))); I.w2 = l.LLVMGetTypeKind(l.LLVMTypeOf(v))
                elif o == "store":
                    a = l.LLVMGetOperand(v, 0); I.ops = [opnd(a), opnd(l.LLVMGetOperand(v, 1))]; I.vol = bool(l.LLVMGetVolatile(v)); I.w = self.width(l.LLVMTypeOf(a)); I.x = int(self.size(l.LLVMTypeOf(a)))
                elif o in ("extractvalue", "insertvalue"):
                    ni = l.LLVMGetNumIndices(v); ix = l.LLVMGetIndices(v); I.x = [ix[k] for k in range(ni)]
                    I.ops = [opnd(l.LLVMGetOperand(v, k)) for k in range(l.LLVMGetNumOperands(v))]
                else:
                    nops = l.LLVMGetNumOperands(v)
                    I.ops = [opnd(l.LLVMGetOperand(v, k)) for k in range(nops)]
                    if nops: I.w2 = self.width(l.LLVMTypeOf(l.LLVMGetOperand(v, 0)))
                    if o in ("add", "sub", "mul", "shl"): I.nsw = bool(l.LLVMGetNSW(v))
                bo.ins.append(I)
            fo.blocks.append(bo)
        fo.nregs = len(regs)
        for bo in fo.blocks:
            for s in bo.succ: fo.blocks[s].preds.append(bo.idx)
        _loops(fo)
        return fo

def _loops(fo):
    n = len(fo.blocks); seen = [0] * n; order = []
    st = [(0, iter(fo.blocks[0].succ))]; seen[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if not seen[s]:
                seen[s] = 1; st.append((s, iter(fo.blocks[s].succ))); break
        else: order.append(b); st.pop()
    order.reverse(); fo.rpo = order; pos = {b: i for i, b in enumerate(order)}
    for b in fo.blocks: b.rpo = pos.get(b.idx, 10**6)
    # dominators (iterative)
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in fo.blocks[b].preds if p in idom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x != y:
                    while pos[x] > pos[y]: x = idom[x]
                    while pos[y] > pos[x]: y = idom[y]
                d = x
            if idom.get(b) != d: idom[b] = d; ch = True
    fo.idom = idom
    def dom(a, b):
        while True:
            if a == b: return True
            if b == order[0]: return False
            b = idom[b]
    loops = {}
    fo.back = set()
    for b in order:
        for s in fo.blocks[b].succ:
            if dom(s, b):
                fo.back.add((b, s)); body = loops.setdefault(s, {s}); stk = [b]
                while stk:
                    x = stk.pop()
                    if x in body: continue
                    body.add(x); stk.extend(p for p in fo.blocks[x].preds if p in pos)
    fo.loops = loops
    for b in fo.blocks:
        hs = [h for h, body in loops.items() if b.idx in body]
        hs.sort(key=lambda h: pos[h]); b.loops = hs
    # live-in registers per block
    use = []; dfn = []
    for b in fo.blocks:
        u = set(); d = set()
        for i in b.phis: d.add(i.dst)
        for i in b.ins:
            ops = [o for o in i.ops if o is not None]
            if i.op == "gep": ops = ops + [v[0] for v in i.x[1]]
            if i.op == "call" and isinstance(i.x[0], int): ops = ops + [i.x[0]]
            for o in ops:
                if o not in d: u.add(o)
            d.add(i.dst)
        use.append(u); dfn.append(d)
    livein = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set()
            for s in fo.blocks[b].succ:
                out |= livein[s]
                for p in fo.blocks[s].phis:
                    if b in p.x: out.add(p.x[b])
            new = use[b] | (out - dfn[b])
            if new != livein[b]: livein[b] = new; ch = True
    cs = {c[0] for c in fo.const_slots}
    # registers live at block entry once its phis are evaluated
    fo.livephi = [sorted((livein[b.idx] | {p.dst for p in b.phis}) - cs) for b in fo.blocks]
