"""C01: digest functions compute their standard for every message."""
import terms as t
from check import Case
from spec import *
from accel import Accel, Chain
from interp import Limit
LEVEL = "other"
EXPLAIN = ("each digest function is interpreted with every message byte an unknown and its length a constant of the partition; each digest cell is compared "
           "with the value graph of the FIPS 180-4 / RIPEMD-160 definition of padding and compression; memory obligations at every access")
ASSUME = ["message lengths are enumerated: all up to several blocks, then selected lengths across block and 16-bit boundaries",
          "digest buffers are aligned for their word type, as the default build's code assumes"]
FN = [("fingera_sha1", sha1, 20, 64, 8), ("fingera_sha2_256", sha256, 32, 64, 8), ("fingera_sha2_512", sha512, 64, 128, 16), ("fingera_ripemd160", ripemd160, 20, 64, 8)]

def case(fn, H, outn, n, k=None):
    def build(env):
        if k: src = env.input("msg", n, vals=env.cyc("m", n, k))
        else: src = env.input("msg", n)
        env.want = H(env.data["msg"])
        return [src, n, env.output("digest", outn)]
    def spec(env, st, o): o.bytes("digest", "digest", env.want)
    return Case("%s n=%d%s" % (fn, n, " cyclic" if k else ""), fn, build, spec, cost=n + 64, time=100, pre=cuts)

def over(fn, H, outn, n):
    """the digest written over the message it is of"""
    def build(env):
        p = env.inout("msg", n); env.want = H(env.data["msg"])
        return [p, n, p]
    def spec(env, st, o):
        o.bytes("digest", "msg", env.want)
        o.untouched("beyond the digest", "msg", outn, n, env.data["msg"])
    return Case("%s n=%d over the message" % (fn, n), fn, build, spec, cost=n + 64, time=100, pre=cuts)

BLK = {sha1: (SHA1_IV, sha1_block, 32, True), ripemd160: (SHA1_IV, rmd_block, 32, False), sha256: (H256, lambda H, b: sha2_block(H, b, 32), 32, True),
       sha512: (H512, lambda H, b: sha2_block(H, b, 64), 64, True)}

def huge(fn, H, outn, B, lb, n):
    """lengths far beyond enumeration: the block loop is accelerated exactly"""
    iv, f, w, big = BLK[H]
    def pre(I, st, env):
        cuts(I, st, env)
        p, at = env.lazy("msg", n); env.p = p; env.at = at
        env.ch = Chain("chain", iv, f, w, lambda j: [at(i) for i in range(j * B, j * B + B)], B)
        def done(c):
            d = [at(i) for i in range(c.j * B, n)]
            d.append(0x80)
            while (len(d) + lb) % B: d.append(0)
            d += bebytes(8 * n, lb) if big else lebytes(8 * n, lb)
            env.want = [x for v in c.rest(d) for x in (bebytes if big else lebytes)(v, w // 8)]
        env.ch.table(4); env.ch.on_rebase = done
        env.ac = Accel([env.ch]); env.ac.install(I)
    def build(env): return [env.p, n, env.output("digest", outn)]
    def spec(env, st, o):
        if not env.ac.skips: raise Limit("block loop not accelerated")
        o.bytes("digest", "digest", env.want)
    return Case("%s n=%d" % (fn, n), fn, build, spec, cost=800, time=100, pre=pre, nopin=True)
HUGE = [1 << 16, (1 << 16) + 64 + 56, (1 << 29) - 1, 1 << 29, (1 << 29) + 57, (1 << 31) - 7, (1 << 31) + 130, (1 << 32) - 1, 1 << 32, (1 << 32) + 112, (1 << 35) + 5, (1 << 40) + 3, (1 << 56) + 121, (1 << 60) + 64]

def cases(thorough, mod):
    out = []
    for fn, H, outn, B, lb in FN:
        if thorough:
            L = set(range(0, B * 4 + 3))
            for m in (5, 6, 7, 8, 9, 16): L |= {B * m - lb - 2, B * m - lb - 1, B * m - lb, B * m - 1, B * m, B * m + 1}
        else:
            L = {0, 1, 2, 3, 4, 7, 8, 9, B // 2 - 1, B // 2, B // 2 + 1}
            for m in (1, 2, 3): L |= set(range(B * m - lb - 3, B * m - lb + 3)) | {B * m - 4, B * m - 2, B * m - 1, B * m, B * m + 1, B * m + 2}
            L |= {B * 5 - lb - 1, B * 5 - lb, B * 5}
        for n in sorted(L): out.append(case(fn, H, outn, n))
        for n in (outn, B, B + 9, 3 * B): out.append(over(fn, H, outn, n))
        for n in HUGE: out.append(huge(fn, H, outn, B, lb, n))
    return out
