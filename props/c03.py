"""C03: Bitcoin hash compositions equal their definitions for every input."""
import terms as t
from check import Case
from spec import *
from accel import Accel, Chain
from interp import Limit
LEVEL = "other"
EXPLAIN = ("hash256, hash160, the 64-byte batch hash and the BIP32 hash are interpreted down to the compression functions with every input byte an unknown; each output "
           "cell is compared with the value graph of the composition of FIPS 180-4 / RIPEMD-160 / RFC 2104 definitions; very long messages through exact loop acceleration")
ASSUME = ["message lengths are enumerated (boundaries listed in the cases); batch sizes up to the listed bound", "output buffers aligned for their word type"]

def comp(fn, outer, outn, n):
    def build(env):
        a = [env.input("msg", n), n, env.output("out", outn)]
        env.want = outer(sha256(env.data["msg"]))
        return a
    def spec(env, st, o): o.bytes("hash", "out", env.want)
    return Case("%s n=%d" % (fn, n), fn, build, spec, cost=n + 128, time=100, pre=cuts)

def huge(fn, outer, outn, n):
    def pre(I, st, env):
        cuts(I, st, env)
        env.mp, at = env.lazy("msg", n)
        env.ch = Chain("chain", H256, lambda H, b: sha2_block(H, b, 32), 32, lambda j: [at(i) for i in range(j * 64, j * 64 + 64)], 64)
        def done(c):
            d = [at(i) for i in range(c.j * 64, n)] + [0x80]
            while (len(d) + 8) % 64: d.append(0)
            d += bebytes((8 * n) & M[64], 8)
            env.want = outer([x for v in c.rest(d) for x in bebytes(v, 4)])
        env.ch.table(4); env.ch.on_rebase = done
        env.ac = Accel([env.ch]); env.ac.install(I)
    def build(env): return [env.mp, n, env.output("out", outn)]
    def spec(env, st, o):
        if not env.ac.skips: raise Limit("block loop not accelerated")
        o.bytes("hash", "out", env.want)
    return Case("%s n=%d" % (fn, n), fn, build, spec, cost=900, time=100, pre=pre, nopin=True)

def batch(blocks):
    fn = "fingera_btc_hash256_d64"
    def build(env):
        a = [env.output("out", 32 * blocks), env.input("in", 64 * blocks), blocks]
        d = env.data["in"]
        env.want = [x for b in range(blocks) for x in sha256(sha256(d[64 * b:64 * b + 64]))]
        return a
    def spec(env, st, o):
        o.bytes("hash", "out", env.want); o.ok()
    return Case("%s blocks=%d" % (fn, blocks), fn, build, spec, cost=300 * blocks, time=200, pre=cuts)

def bigbatch(blocks, k=3):
    """long batch over k distinct blocks"""
    fn = "fingera_btc_hash256_d64"
    def build(env):
        v = env.cyc("in", 64 * blocks, 64 * k)
        a = [env.output("out", 32 * blocks), env.input("data", 64 * blocks, vals=v), blocks]
        env.one = [sha256(sha256(v[64 * b:64 * b + 64])) for b in range(k)]
        return a
    def spec(env, st, o):
        o.bytes("hash", "out", [x for b in range(blocks) for x in env.one[b % k]])
    return Case("%s blocks=%d repeating" % (fn, blocks), fn, build, spec, cost=3000, time=300, pre=cuts)

def slack(blocks):
    """nothing beyond 32 bytes per block is written"""
    fn = "fingera_btc_hash256_d64"
    def build(env): return [env.output("out", 32 * blocks + 64), env.input("in", 64 * blocks + 64), blocks]
    def spec(env, st, o): o.untouched("beyond the batch", "out", 32 * blocks, 32 * blocks + 64)
    return Case("%s blocks=%d slack" % (fn, blocks), fn, build, spec, cost=200 * blocks, time=200)

def over(fn, outer, outn, n):
    """the hash written over the message"""
    def build(env):
        p = env.inout("msg", n); env.want = outer(sha256(env.data["msg"]))
        return [p, n, p]
    def spec(env, st, o):
        o.bytes("hash", "msg", env.want); o.untouched("beyond the hash", "msg", outn, n, env.data["msg"])
    return Case("%s n=%d over the message" % (fn, n), fn, build, spec, cost=n + 128, time=100, pre=cuts)

def merkle(blocks):
    """the batch hash over its own input, as one layer of a Merkle tree is reduced"""
    fn = "fingera_btc_hash256_d64"
    def build(env):
        p = env.inout("in", 64 * blocks); d = env.data["in"]
        env.want = [x for b in range(blocks) for x in sha256(sha256(d[64 * b:64 * b + 64]))]
        return [p, p, blocks]
    def spec(env, st, o):
        o.bytes("hash", "in", env.want); o.untouched("beyond the hashes", "in", 32 * blocks, 64 * blocks, env.data["in"])
    return Case("%s blocks=%d over the input" % (fn, blocks), fn, build, spec, cost=300 * blocks, time=200, pre=cuts)

def bip32(child):
    fn = "fingera_btc_bip32_hash"
    def build(env):
        cc = env.input("chain", 32); c = child if child is not None else env.num("child", 32); h = env.sy("header")
        a = [cc, c, h, env.input("data", 32), env.output("out", 64)]
        env.want = hmac(sha512, 128, env.data["chain"], [h] + env.data["data"] + bebytes(c, 4))
        return a
    def spec(env, st, o): o.bytes("hash", "out", env.want)
    return Case("%s child=%s" % (fn, child), fn, build, spec, cost=600, time=200, pre=cuts)

def cases(thorough, mod):
    out = []
    L = {0, 1, 2, 20, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 80, 118, 119, 120, 127, 128, 183, 184, 192, 255, 256}
    if thorough: L |= set(range(0, 260))
    for n in sorted(L):
        out.append(comp("fingera_btc_hash256", sha256, 32, n))
        out.append(comp("fingera_btc_hash160", ripemd160, 20, n))
    for n in ((1 << 29) - 60, 1 << 29, (1 << 32) + 55, (1 << 31) + 119, (1 << 40) + 3):
        out.append(huge("fingera_btc_hash256", sha256, 32, n))
        out.append(huge("fingera_btc_hash160", ripemd160, 20, n))
    for b in range(0, 9 if not thorough else 33): out.append(batch(b))
    for n in (32, 64, 80, 130):
        out.append(over("fingera_btc_hash256", sha256, 32, n)); out.append(over("fingera_btc_hash160", ripemd160, 20, n))
    for b in (1, 2, 3, 5, 8): out.append(merkle(b))
    for b in (257, 300): out.append(bigbatch(b))
    for b in (0, 1, 2, 5): out.append(slack(b))
    for c in (None, 0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x01020384): out.append(bip32(c))
    return out
