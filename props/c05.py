"""C05: hex / base64 / base32 encoders emit exactly the standard text."""
import terms as t
from check import Case
from spec import *
LEVEL = "other"
EXPLAIN = "every encoder is interpreted over symbolic byte strings; each output cell is compared with the RFC 4648 definition as a function of the input bits"
ASSUME = ["C library string functions behave as specified", "input lengths are enumerated up to the listed bound; longer inputs repeat the same block code"]

ENC = [("fingera_to_hex", lambda d: rfc4648(d, 4, HEXL), "w_to_hex_length", 0),
       ("fingera_to_hex", lambda d: rfc4648(d, 4, HEXU), "w_to_hex_length", 1),
       ("fingera_to_base64", lambda d: rfc4648(d, 6, B64, 4), "w_to_base64_length", None),
       ("fingera_to_base64_urlsafe", lambda d: rfc4648(d, 6, B64U), "w_to_base64_urlsafe_length", None),
       ("fingera_to_base32", lambda d: rfc4648(d, 5, B32, 8), "w_to_base32_length", None),
       ("fingera_to_base32_raw", lambda d: [widen(g, 5, 8) for g in regroup(d, 5)], None, None)]

def enc_case(fn, ref, up, n):
    def build(env):
        src = env.input("in", n, vals=env.cyc("cyc", n) if n > 2000 else None)
        m = len(ref([0] * n))
        dst = env.output("out", m)
        env.exp = ref(env.data["in"])
        return [src, n, dst] + ([up] if up is not None else [])
    def spec(env, st, out):
        out.bytes("text", "out", env.exp)
        if fn.endswith("_raw"): out.ret(len(env.exp))
    return Case("%s%s n=%d" % (fn, "" if up is None else " upper=%d" % up, n), fn, build, spec, cost=n)

def len_case(fn, n, want):
    return Case("%s(%d)" % (fn, n), fn, lambda env: [n], lambda env, st, o: o.ret(want, label="announced length"))

def cases(thorough, mod):
    L = list(range(0, 34 if not thorough else 130)) + [255, 256, 257, 1000, 65539] + list(range(1020, 1036)) + ([4096, 10007, 131075] if thorough else [])
    out = []
    for fn, ref, lenfn, up in ENC:
        for n in L:
            out.append(enc_case(fn, ref, up, n))
            if lenfn and not up: out.append(len_case(lenfn, n, len(ref([0] * n))))
    # a nonzero flag is "upper", whatever its value
    out.append(enc_case("fingera_to_hex", ENC[1][1], 2, 3)); out.append(enc_case("fingera_to_hex", ENC[1][1], 0x100, 3))
    return out
