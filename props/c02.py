"""C02: HMAC-SHA256 and HMAC-SHA512 equal RFC 2104 for every key and message."""
import terms as t
from check import Case
from spec import *
from accel import Accel, Chain
from interp import Limit
LEVEL = "other"
EXPLAIN = ("the HMAC functions are interpreted with every key and message byte an unknown, for key and message lengths on both sides of every block and padding "
           "boundary; each output cell is compared with the value graph of RFC 2104 over FIPS 180-4; very long messages and keys through exact loop acceleration")
ASSUME = ["key and message lengths are enumerated (boundaries listed in the cases)", "output buffer aligned for its word type"]
FN = [("fingera_hmac_sha256", sha256, 32, 64, 8, H256, lambda H, b: sha2_block(H, b, 32), 32), ("fingera_hmac_sha512", sha512, 64, 128, 16, H512, lambda H, b: sha2_block(H, b, 64), 64)]

def case(fn, H, outn, B, kn, mn):
    def build(env):
        a = [env.input("key", kn), kn, env.input("msg", mn), mn, env.output("mac", outn)]
        env.want = hmac(H, B, env.data["key"], env.data["msg"])
        return a
    def spec(env, st, o): o.bytes("mac", "mac", env.want)
    return Case("%s key=%d msg=%d" % (fn, kn, mn), fn, build, spec, cost=kn + mn + 256, time=100, pre=cuts)

def huge(fn, H, outn, B, lb, iv, f, w, kn, mn):
    bigkey = kn > 10 ** 4
    def tail(c, n, at, base):
        d = [at(i) for i in range(c.j * B - base, n)] + [0x80]
        while (len(d) + lb) % B: d.append(0)
        d += bebytes(8 * (n + base), lb)
        return [x for v in c.rest(d) for x in bebytes(v, w // 8)]
    def pre(I, st, env):
        cuts(I, st, env)
        if bigkey:
            p, at = env.lazy("key", kn); env.kp = p; env.mp = env.input("msg", mn)
            env.ch = Chain("chain", iv, f, w, lambda j: [at(i) for i in range(j * B, j * B + B)], B)
        else:
            env.kp = env.input("key", kn); env.mp, at = env.lazy("msg", mn)
            k = env.data["key"]; k = H(k) if len(k) > B else k
            ip = [t.bxor(x, 0x36, 8) for x in list(k) + [0] * (B - len(k))]
            env.ch = Chain("chain", iv, f, w, lambda j: ip if j == 0 else [at(i) for i in range((j - 1) * B, j * B)], B)
        def done(c):
            if bigkey: env.want = hmac(H, B, tail(c, kn, at, 0), env.data["msg"])
            else: env.want = H(op + tail(c, mn, at, B))
        if not bigkey:
            op = [t.bxor(x, 0x5c, 8) for x in list(k) + [0] * (B - len(k))]
        env.ch.table(4); env.ch.on_rebase = done
        env.ac = Accel([env.ch]); env.ac.install(I)
    def build(env): return [env.kp, kn, env.mp, mn, env.output("mac", outn)]
    def spec(env, st, o):
        if not env.ac.skips: raise Limit("block loop not accelerated")
        want = env.want
        o.bytes("mac", "mac", want)
    return Case("%s key=%d msg=%d" % (fn, kn, mn), fn, build, spec, cost=900, time=100, pre=pre, nopin=True)

def cases(thorough, mod):
    out = []
    for fn, H, outn, B, lb, iv, f, w in FN:
        P = set()
        K = {0, 1, 2, 3, 7, 8, 9, outn - 1, outn, outn + 1, B // 2 + 5, B - 9, B - 8, B - 1, B, B + 1, B + 2, 2 * B - lb - 1, 2 * B - lb, 2 * B, 2 * B + 1}
        if thorough: K |= set(range(0, 2 * B + 2))
        for k in K: P.add((k, 3))
        L = {0, 1, B - lb - 2, B - lb - 1, B - lb, B - lb + 1, B - 1, B, B + 1, 2 * B - lb - 1, 2 * B - lb, 2 * B}
        if thorough: L |= set(range(0, 2 * B + 2, 1))
        for m in L: P.add((20, m)); 
        for m in (0, B - lb - 1, B - lb, B): P |= {(B, m), (B + 1, m), (0, m)}
        for k, m in sorted(P): out.append(case(fn, H, outn, B, k, m))
        for k, m in ((20, (1 << 29) - 60), (33, 1 << 29), (20, (1 << 32) + 55), (B + 2, (1 << 31) + 119), ((1 << 32) + 9, 5), ((1 << 31) + 1, 0), (1 << 16, 1)):
            out.append(huge(fn, H, outn, B, lb, iv, f, w, k, m))
    return out
