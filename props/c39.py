"""C39: the byte-order helpers read and write exactly the bytes named, at any alignment."""
import terms as t
from spec import *
from check import Case
from interp import P
SEQ = False
LEVEL = "other"
EXPLAIN = ("each byte-order helper of the public header is interpreted over unknown bytes at every offset from an unaligned start; the value read, and each byte written, is compared with its definition, "
           "neighbouring bytes must stay untouched and no access may leave the object")
ASSUME = ["little-endian 64-bit target, as built here"]

def read(fn, n, big, off, indexed):
    def build(env):
        p = env.input("mem", off + n)
        return [p, off] if indexed else [P(p.o, off)]
    def spec(env, st, o):
        b = env.data["mem"][off:off + n]
        if big: b = b[::-1]
        o.ret(t.cat([(x, 8) for x in b]), 8 * n)
    return Case("%s at %d" % (fn, off), fn, build, spec)
def write(fn, big, off):
    def build(env):
        p = env.output("mem", off + 4 + 5); return [P(p.o, off), env.word("value", 4)]
    def spec(env, st, o):
        b = env.data["value"]
        if big: b = b[::-1]
        o.bytes("bytes", "mem", b, off); o.untouched("before", "mem", 0, off); o.untouched("after", "mem", off + 4, off + 9)
    return Case("%s at %d" % (fn, off), fn, build, spec)
def cases(thorough, mod):
    out = []
    for off in list(range(0, 20)) + [63, 255, 256, 4099]:
        for n, nm in ((4, "32"), (8, "64")):
            for e, big in (("little", 0), ("big", 1)): out.append(read("w_read_%s_%s" % (e, nm), n, big, off, False))
            for e, big in (("le", 0), ("be", 1)): out.append(read("w_%s%s" % (e, nm), n, big, off, True))
        for e, big in (("little", 0), ("big", 1)): out.append(write("w_write_%s_32" % e, big, off))
    return out
