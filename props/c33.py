"""C33: what the key-handling code executes and addresses does not depend on the secret bytes."""
import terms as t
import libc
from check import Case
from btc import *
from strs import chain, offsets
from c04 import const_of, layout
import c19
from c19 import PUB, sec, m_to58
LEVEL = "proof"
EXPLAIN = ("information-flow analysis on the unoptimised intermediate representation: private-key, seed, chain-code, HMAC-key, message and generator bytes carry a secret label through loads, stores, copies and "
           "operations; on every path, the condition of every branch, switch and conditional expression, every address read or written, every array size, block length, division operand and early-exit comparison "
           "must be free of the label.  Program counter and address trace are then the same for all secrets with the same public part (curve verdicts, lengths, prefixes, header bytes)")
ASSUME = ["the compiler introduces no secret-dependent branch of its own", "labels end at public results: public keys, signatures, checksums (hash256) and key hashes (hash160), and at the verdicts of the curve library, whose own "
          "timing is outside the repository", "the text codecs (Base58, Base32, Base64, hexadecimal) are outside the property"]
CTYPE = {k: (0,) for k in ("tolower", "toupper", "isspace", "isdigit", "isxdigit", "isupper", "islower", "isalpha", "isalnum", "isprint", "isgraph", "ispunct", "iscntrl", "abs", "labs", "llabs")}
ARGS = dict(CTYPE, malloc=(0,), calloc=(0, 1), realloc=(1,), memcpy=(2,), memmove=(2,), memset=(2,), bzero=(1,), explicit_bzero=(1,), memcmp=(2,), bcmp=(2,), fingera_os_rand_bytes=(1,),
            fingera_cleanse=(1,))
OPTS = dict(ct=1, ctargs=ARGS, rand_taint=1)
def spec(env, st, o):
    k = env.I.stats.get("ct_sites", 0); o.ok(max(1, k // max(1, env.I.stats.get("paths", 1))))
def again(c):
    k = dict(c.kw); k["opts"] = dict(OPTS, merge=(k.get("opts") or {}).get("merge", True)); k["must_return"] = False
    return Case(c.label, c.fn, c.build, spec, **k)
def dec58(ks, shape):
    """fingera_from_base58_check: a payload whose key bytes are secret and whose prefix and flags are public, or a failure"""
    def f(I, st, av, ins):
        n = libc.conc(I, st, av, 1); out = []
        for k in ks:
            if k + 4 > n: continue
            s = st.clone()
            if k + 4: I.check(s, av[2], k + 4, True); I.store_cells(s, s.wobj(av[2].o), av[2].off, [t.sym("dec[%d]" % i, taint=int(shape(i))) for i in range(k + 4)])
            out.append((s, k))
        return out
    return f
SKIP = ("fingera_to_base58", "fingera_from_base58", "fingera_to_base58_check", "fingera_from_base58_check", "fingera_btc_key_from_string", "fingera_exkey_from_string", "fingera_btc_key_decode", "fingera_exkey_decode",
        "fingera_exkey_derive", "fingera_exkey_get_pub", "fingera_exkey_encode", "fingera_exkey_to_string")
def cases(thorough, mod):
    offsets(mod); m, XK = layout(mod, "exkey"); XP = const_of(mod, "z_expub"); out = [again(c) for c in c19.cases(thorough, mod) if c.fn not in SKIP]
    soff = [s for r, s in m if r >= 9]; srec = lambda i: 9 <= i < 74 and i != 41       # chain code and key are secret, the rest of the record is public
    A = lambda label, fn, build, models=PUB, pre=ready: out.append(Case(label, fn, build, spec, models=models, pre=pre, nopin=True, must_return=False, ends=("ret", "assert", "abort", "exit"), opts=OPTS))
    def xk(env, name="xk", ro=True):
        from interp import P
        o = env.st.new_obj(name, XK, "input", None, ro); v = []
        for i in range(XK): o.cells[i] = env.sy("%s[%d]" % (name, i), None, int(i in soff)); v.append(o.cells[i])
        env.data[name] = v; return P(o.id, 0)
    def mixed(env, name, n, f, vals=(), ro=True):
        from interp import P
        o = env.st.new_obj(name, n, "input", None, ro); v = []
        for i in range(n): o.cells[i] = vals[i] if i < len(vals) else env.sy("%s[%d]" % (name, i), None, int(f(i))); v.append(o.cells[i])
        env.data[name] = v; return P(o.id, 0)
    for l, c in (("hardened", (1 << 31, (1 << 32) - 1)), ("normal", (0, (1 << 31) - 1))):
        A("exkey_derive " + l, "fingera_exkey_derive", lambda env, c=c: [xk(env), env.output("out", XK), env.num("child", 32, *c), env.num("fp", 32)])
        def inplace(env, c=c):
            p = xk(env, ro=False); return [p, p, env.num("child", 32, *c), env.num("fp", 32)]
        A("exkey_derive in place " + l, "fingera_exkey_derive", inplace)
    A("exkey_get_pub", "fingera_exkey_get_pub", lambda env: [xk(env), env.output("xp", XP)])
    A("exkey_encode", "fingera_exkey_encode", lambda env: [xk(env), env.output("rec", 74)])
    A("exkey_decode", "fingera_exkey_decode", lambda env: [mixed(env, "rec", 74, srec), env.output("xk", XK)])
    for head in ((0x30, 0x81, 0xd3, 2, 1, 1, 4, 32), (0x30, 0x82, 1, 0x13, 2, 1, 1, 4, 32), (0x30, 0x81, 0xd3, 2, 1, 1, 4, 31), (0x30, 0x81, 0xd3, 2, 1, 1, 4, 1), (0x30, 0x81, 0xd3, 2, 1, 1, 4, 33)):
        for n in (len(head) + head[-1], len(head) + 32, 214, 279):
            A("key_decode header %s, %d bytes" % (bytes(head).hex(), n), "fingera_btc_key_decode", lambda env, head=head, n=n: [mixed(env, "der", n, lambda i: i < len(head) + head[-1], head), n, env.output("key", 32)])
    A("key_decode, any header", "fingera_btc_key_decode", lambda env: [mixed(env, "der", 60, lambda i: i >= 12), 60, env.output("key", 32)])
    m58 = {"fingera_to_base58_check": m_to58}
    for pre in (b"", b"\x80", b"\x80\x80", b"\x01\x02\x03\x04", b"\x01\x02\x03\x04\x05\x06\x07\x08"):
        p = len(pre)
        A("exkey_to_string prefix %s" % pre.hex(), "fingera_exkey_to_string", lambda env, pre=pre: [xk(env), env.output("text", 160), chain(env, xprv=pre)], dict(PUB, **m58), None)
        for n in (51, 52, 111, 112, 128, 129, 170):
            A("key_from_string %d characters prefix %s" % (n, pre.hex()), "fingera_btc_key_from_string", lambda env, n=n, pre=pre: [env.input("text", n), n, env.inout("key", 32), env.inout("flag", 4), chain(env, secret=pre)],
              dict(PUB, fingera_from_base58_check=dec58((0, p, p + 31, p + 32, p + 33, p + 34), lambda i, p=p: p <= i < p + 32)), None)
            A("exkey_from_string %d characters prefix %s" % (n, pre.hex()), "fingera_exkey_from_string", lambda env, n=n, pre=pre: [env.input("text", n), n, env.inout("xk", XK), chain(env, xprv=pre)],
              dict(PUB, fingera_from_base58_check=dec58((0, p, p + 73, p + 74, p + 75), lambda i, p=p: srec(i - p))), None)
    return out
