"""C30: the exported chain parameters are Bitcoin's and self-consistent."""
from check import Task, Analysis
from c04 import const_of
from interp import P
LEVEL = "proof"
EXPLAIN = "the initialisers of the exported parameter objects are read from the compiled IR and compared field by field with Bitcoin Core's published values"
ASSUME = ["the objects are not modified at run time (C22)"]
FIELDS = ["pubkey", "script", "secret", "xpub", "xprv", "hrp"]
TEST = [b"\x6f", b"\xc4", b"\xef", bytes.fromhex("043587cf"), bytes.fromhex("04358394")]
NETS = {"g_mainnet_chain_parameters": [b"\x00", b"\x05", b"\x80", bytes.fromhex("0488b21e"), bytes.fromhex("0488ade4"), b"bc"],
        "g_testnet_chain_parameters": TEST + [b"tb"], "g_regnet_chain_parameters": TEST + [b"bcrt"]}

def field(mod, st, g, f):
    off = const_of(mod, "o_cp_" + f); p = st.rd("@" + g, off)
    n = sum(st.rd("@" + g, const_of(mod, "o_cp_%s_size" % f) + i) << (8 * i) for i in range(4))
    if type(p) is not tuple or type(p[1]) is not P: return None, n, None
    o = st.mem[p[1].o]; size = o.size - p[1].off
    data = bytes(st.rd(p[1].o, p[1].off + i) for i in range(size))
    return data, n, size
def go_net(mod, g, want):
    def go(A):
        r = A.res; r.cases += 1; r.labels.append(g)
        st = A.interp({}).initial()
        def bad(f, msg): r.viol.append(dict(case=g, entry=g, kind="constant", what=f, detail=msg, where="src/btc/chain_parameters.c: initialiser of %s" % g, more=[], witness={}))
        if "@" + g not in st.mem: r.notes.append("ANALYSIS-ERROR %s not found" % g); return
        for f, w in zip(FIELDS, want):
            data, n, size = field(mod, st, g, f)
            r.obl += 2; r.ident += 2
            if data is None: bad(f, "no constant prefix"); continue
            if n != len(w): bad(f + " size", "is %d, the published prefix has %d bytes" % (n, len(w)))
            # the described bytes: the array without its terminating NUL
            real = len(data) - 1 if data[-1:] == b"\0" and len(data) > len(w) else len(data)
            if n == len(w) and real != n and data[:n] == w: bad(f + " size", "is %d but the array describes %d bytes" % (n, real))
            if data[:len(w)] != w: bad(f, "is %s, published %s" % (data[:max(n, len(w))].hex(), w.hex()))
    return go
def distinct(mod):
    def go(A):
        r = A.res; r.cases += 1; r.labels.append("networks distinct"); st = A.interp({}).initial()
        for f in FIELDS:
            m, n, s = field(mod, st, "g_mainnet_chain_parameters", f)
            for g in list(NETS)[1:]:
                t, k, s = field(mod, st, g, f); r.obl += 1; r.ident += 1
                if m is not None and t is not None and n == k and m[:n] == t[:k]:
                    r.viol.append(dict(case="networks distinct", entry=g, kind="constant", what=f, detail="main network and %s share the prefix %s" % (g, m[:n].hex()), where="src/btc/chain_parameters.c", more=[], witness={}))
    return go
def cases(thorough, mod):
    return [Task(g, go_net(mod, g, w)) for g, w in NETS.items()] + [Task("networks distinct", distinct(mod))]
