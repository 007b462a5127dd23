"""C28: the hex dump prints every byte in order and keeps to its line buffer."""
import terms as t
from check import Case
from spec import *
LEVEL = "other"
EXPLAIN = ("the dump is interpreted over symbolic byte strings of every length up to the bound (several flushes of its line buffer) plus selected long ones; the concatenation of "
           "everything written to standard output is compared with the definition, each digit as a function of the input byte; every buffer access carries a bounds obligation")
ASSUME = ["stdio writes deliver the bytes they are given in order", "lengths beyond the enumerated ones repeat the same loop body"]

def expected(b, up):
    o = []
    for i, v in enumerate(b):
        if i:
            for k in (4, 8, 16):
                if i % k == 0: o.append(32)
            if i % 32 == 0: o.append(10)
        o += rfc4648([v], 4, HEXU if up else HEXL)
    return o + [10]
def case(n, up, cyc=False):
    def build(env): return [env.input("buf", n, vals=env.cyc("cyc", n) if cyc else None), n, up]
    def spec(env, st, o):
        got = []
        for e in st.log:
            if e[0] == "out" and e[1] == "stdout": got += e[2]
            elif e[0] == "out": o.fail("output", "writes to %s" % e[1])
        want = expected(env.data["buf"], up)
        if len(got) != len(want): o.fail("output", "is %d characters instead of %d" % (len(got), len(want)))
        for i, (g, w) in enumerate(zip(got, want)): o.eq("output[%d]" % i, g, w)
    return Case("n=%d upper=%d" % (n, up), "fingera_hex_dump", build, spec, cost=n)
def cases(thorough, mod):
    L = list(range(0, 131)) + list(range(397, 417)) + list(range(802, 822)) + [1000, 1024, 1025, 2000, 4096, 8300]
    if thorough: L = list(range(0, 2100)) + [4096, 10000, 30011, 65537]
    return [case(n, 0, n > 3000) for n in L] + [case(n, 1, n > 3000) for n in L if n < 40 or n % 97 == 0] + [case(40, 2), case(40, 0x100), case(5, 0x80000000)]
