"""C13: addresses decode to the right kind, program and network only."""
from check import Case
from strs import *
from c12 import checksum, lower, LOWP, UPP, UBECH
LEVEL = "other"
EXPLAIN = ("address decoding is interpreted in two partitions: with an opaque Base58Check decoder that delivers any payload (sizes enumerated, bytes unknown, classes by the first byte in which the payload "
           "differs from each network prefix), and with Bech32 strings built from BIP173 (real decoder in the analysed code) over network, prefix relation, version class, program size, padding class and "
           "announced output size with all other bits unknown.  Kind, program bytes and size are compared on every path.  Encoders are compared with prefix+id handed to Base58Check and with the BIP173 text")
ASSUME = ["Base58Check is decided by C09-C11 and C31", "prefix sizes 1 to 8, Bech32 prefixes of 1 to 16 characters"]
BAD, PUB, SCR, WKEY, WSCR, WUNK = range(6)
_kind = []
def kinds(mod):
    if not _kind: _kind.extend(const_of(mod, "e_addr", i) for i in range(6))
    return _kind
def outsize(env, room):
    z = env.st.new_obj("outsize", 8, "out")
    for i in range(8): z.cells[i] = (room >> (8 * i)) & 255
    return P(z.id, 0)
def size_is(o, st, n, room):
    for i in range(8): o.eq("announced size byte %d" % i, st.rd("outsize", i), (n >> (8 * i)) & 255)
def within(o, st, room):
    """whatever is reported, the size must lie within the caller's buffer"""
    c = [st.rd("outsize", i) for i in range(8)]
    v = leword(c) if all(type(x) in (int, t.T) for x in c) else None
    if type(v) is int:
        if v > room: o.fail("announced size", "%d exceeds the buffer of %d" % (v, room), st.trace)
        else: o.ok()

def heads(pub, scr, k):
    """payload classes by the first byte where it leaves both prefixes"""
    base = payload(k); out = []
    def put(h):
        h = list(h) + base[len(h):]
        if len(h) == k and h not in out: out.append(h)
    for pre in (pub, scr):
        put(pre[:k])
        for j in range(min(len(pre), k)):
            put(list(pre[:j]) + [t.sym("dec[%d]" % j, 8, [c for c in range(256) if c not in (pub[j:j + 1] + scr[j:j + 1])])])
    if len(pub) == len(scr):
        for j in range(1, min(len(pub), k)):
            put(list(pub[:j]) + list(scr[j:k])); put(list(scr[:j]) + list(pub[j:k]))
    return out
def b58(mod, pub, scr, n, ks, room):
    offsets(mod); kd = kinds(mod)
    def build(env):
        env.st.new_obj("text", n, "input", lambda i: 50, True)     # without separator: not a Bech32 string
        o = env.output("out", room)
        return [P(t.PHASE[0] + "text", 0), n, o, outsize(env, room), chain(env, pubkey=pub, script=scr)]
    def spec(env, st, o):
        e = calls(st, "from58"); k = e[0][3] if e else 0; d = list(e[0][4]) if e else []
        within(o, st, room)
        if len(e) > 1 or e and (e[0][1] != P(t.PHASE[0] + "text", 0) or e[0][2] != n): o.fail("decoding", "does not decode exactly the given text once", st.trace); return
        if not e and room >= n:
            if n * 0.733 + 1 < min(len(pub), len(scr)) + 24: o.eq("kind", st.rv, kd[BAD], 32, st.trace)
            else: o.fail("decoding", "rejects a text of %d characters without decoding it" % n, st.trace)
            return
        kind, p = BAD, 0
        for nm, pre in ((SCR, scr), (PUB, pub)):
            m = match(d, pre) if k >= len(pre) else 0
            if settle(env, st, m) == 1: kind, p = nm, len(pre)
            elif settle(env, st, m) != 0:
                o.n += 1; return                                  # classes keep every path decided
        if kind != BAD and (k - p != 20 or room < n):             # refusing is also fine
            if st.rv == kd[BAD]: o.ok(); return
        o.eq("kind", st.rv, kd[kind], 32, st.trace)
        if kind == BAD: return
        size_is(o, st, k - p, room)
        for i in range(k - p): o.eq("program[%d]" % i, st.rd("out", i), d[p + i])
    return Case("decode Base58Check text of %d, prefixes %s %s, room %d" % (n, pub.hex(), scr.hex(), room), "fingera_btc_address_decode", build, spec,
                models={"fingera_from_base58_check": from58(ks, lambda k: heads(pub, scr, k))}, nopin=True, cost=len(ks))

def none58(I, st, av, ins):
    """Base58Check decoder on a Bech32 text: fails, or (adversarially) delivers a payload of another network"""
    n = libc.conc(I, st, av, 1); out = []
    for k in (0, 21):
        s = st.clone()
        if k and k + 4 > n: continue
        w = [t.sym("junk[%d]" % i) for i in range(min(n, 30))] if not k else [0x77] + [t.sym("junk[%d]" % i) for i in range(24)]
        if w: I.check(s, av[2], len(w), True); I.store_cells(s, s.wobj(av[2].o), av[2].off, w)
        out.append((s, k))
    return out
def bech(mod, label, net, hrp, up, ver, m, pad, room, want):
    """a string with a right checksum: version symbol over `ver`, m program characters, padding class, network's prefix `net`, string's prefix `hrp` (list of domains)"""
    offsets(mod); kd = kinds(mod); pb = m * 5 % 8
    def build(env):
        hd = [c if type(c) is int else env.sy("h[%d]" % i, c) for i, c in enumerate(hrp)]
        if up: hd = [c - 32 if type(c) is int and 97 <= c <= 122 else c for c in hd]
        v = [env.sy("v[%d]" % i, range(32)) for i in range(m)]
        if m and pad is not None: v[-1] = env.sy("v[%d]" % (m - 1), [x for x in range(32) if ((x & ((1 << pb) - 1)) != 0) == pad])
        w = env.sy("ver", ver); env.w = w; env.v = v
        low = [lower(c) for c in hd]; A = UBECH if up else BECH
        cells = hd + [49] + [letter(A, x) for x in [w] + v + checksum(low, [w] + v)]
        n = len(cells)
        return [env.input("text", n, vals=cells), n, env.output("out", n + room), outsize(env, n + room), chain(env, hrp=net)]
    def spec(env, st, o):
        r = len(hrp) + 8 + m + room; within(o, st, r)
        nb = m * 5 // 8
        if want == BAD or room < 0 and st.rv == kd[BAD]: o.eq("kind", st.rv, kd[BAD], 32, st.trace); return
        o.eq("kind", st.rv, kd[want], 32, st.trace)
        prog = [widen(b, 8, 8) for b in regroup(env.v, 8, 5, False)]
        if want == WUNK: prog = [env.w] + prog
        size_is(o, st, len(prog), r)
        for i, b in enumerate(prog): o.eq("program[%d]" % i, st.rd("out", i), b)
        o.untouched("beyond the text", "out", max(len(hrp) + 8 + m, 0), r)
    return Case("decode " + label, "fingera_btc_address_decode", build, spec, models={"fingera_from_base58_check": none58}, cost=len(hrp) + m)

def enc58(mod, fn, field, pre, k, room):
    offsets(mod)
    full = (k + len(pre) + 4) * 138 // 100 + 2
    def build(env):
        r = full + room if room < 4096 else room - 4096
        return [env.input("id", k), k, env.output("out", min(r, 4096)), r, chain(env, **{field: pre})]
    def spec(env, st, o):
        e = calls(st, "to58")
        if not e:
            if room < 0 or room >= 4096 and room - 4096 < full: o.ret(0)
            else: o.fail("encoding", "refuses although the announced length fits", st.trace)
            return
        if len(e) != 1: o.fail("encoding", "%d encodings instead of one" % len(e), st.trace); return
        want = list(pre) + env.data["id"]; got = e[0][1]; r = e[0][2]
        if len(got) != len(want): o.fail("payload", "is %d bytes instead of %d" % (len(got), len(want)), st.trace); return
        for i, (g, w) in enumerate(zip(got, want)): o.eq("payload[%d]" % i, g, w)
        if room < 0 and st.rv == 0: return
        o.ret(r)
        for i in range(r): o.eq("text[%d]" % i, st.rd("out", i), t.sym("enc[%d]" % i))
    return Case("%s %d bytes, prefix %s, room %+d" % (fn, k, pre.hex(), room), fn, build, spec, models={"fingera_to_base58_check": to58()}, nopin=True)
def encw(mod, fn, k, hrp, room, ver=None):
    """witness encoders; ver None: fixed version 0, otherwise the version byte's values"""
    offsets(mod); unk = ver is not None
    plen = k - 1 if unk else k
    nb = 1 + (max(plen, 0) * 8 + 4) // 5
    full = len(hrp) + nb + 7
    good = (3 <= k <= 41 and all(1 <= v <= 16 for v in ver)) if unk else k == (20 if "keyhash" in fn else 32)
    def build(env):
        r = max(0, full + room)
        d = env.input("id", k, doms=[ver] + [None] * (k - 1) if unk and k else None)
        return [d, k, env.output("out", min(r, 4096)), r, chain(env, hrp=hrp)]
    def spec(env, st, o):
        if st.end == "assert": 
            if good: o.fail("assertion", "fails for a proper program", st.trace)
            else: o.ok()
            return
        if not good or room < 0: o.ret(0); return
        d = env.data["id"]
        v = [t.ext(d[0], 0, 8) if unk else 0] + [widen(g, 5, 8) for g in regroup(d[1:] if unk else d, 5)]
        want = list(hrp) + [49] + [letter(BECH, x) for x in v + checksum(list(hrp), v)]
        o.ret(len(want))
        for i, w in enumerate(want): o.eq("text[%d]" % i, st.rd("out", i), w)
        o.untouched("beyond the text", "out", full, full + room)
    return Case("%s %d bytes%s, prefix %s, room %+d" % (fn, k, " version %d.." % ver[0] if unk else "", hrp.decode(), room), fn, build, spec, ends=("ret", "assert"), must_return=False, cost=k)

def cases(thorough, mod):
    out = []; kinds(mod)
    P2 = [(b"\x00", b"\x05"), (b"\x6f", b"\xc4"), (b"\x01\x02", b"\x01\x03"), (b"\x05", b"\x06\x07\x08\x09"), (b"\x80\1\2\3", b"\x80\1\2\4"), (b"\1\2\3\4\5\6\7\x80", b"\1\2\3\4\5\6\7\x81"), (b"\x06\x07\x08", b"\x05")]
    for pub, scr in P2:
        a, b = len(pub), len(scr)
        for n, room in ((0, 0), (10, 10), (27, 30), (34, 34), (35, 35), (34, 200), (44, 44), (60, 90), (129, 129), (34, 33), (34, 25), (34, 20), (34, 0)):
            ks = {0, 1, 20 + a, 20 + b} if n in (34, 35) else {0, 1, a, b, 19 + a, 20 + a, 21 + a, 20 + b, 32 + a, 5}
            if n == 60 or thorough: ks |= set(range(1, 41))
            out.append(b58(mod, pub, scr, n, sorted(ks), room))
    # Bech32
    for net in (b"bc", b"tb", b"bcrt", b"x") + ((b"a1b", b"abcdefgh", b"abcdefghijklmnop") if thorough else (b"abcdefghijklmnop",)):
        h = len(net); top = 82 - h
        ms = range(0, top + 1) if thorough or net == b"bc" else [0, 3, 4, 32, 52, 64, 65]
        for m in ms:
            pb = m * 5 % 8; nbytes = m * 5 // 8
            for nm, ver in (("version 0", [0]), ("version 1-16", range(1, 17)), ("version 17-31", range(17, 32))):
                if ver == [0]: want = WKEY if nbytes == 20 else WSCR if nbytes == 32 else BAD
                elif ver[0] == 1: want = WUNK if 2 <= nbytes <= 40 else BAD
                else: want = BAD
                L = "%s %s, %d program characters" % (net.decode(), nm, m)
                if pb >= 5: out.append(bech(mod, L + " (surplus character)", net, net, 0, ver, m, None, 0, BAD)); continue
                out.append(bech(mod, L, net, net, 0, ver, m, False if pb else None, 0, want))
                if pb: out.append(bech(mod, L + ", non-zero padding", net, net, 0, ver, m, True, 0, BAD))
                if m in (4, 32, 52, 64, 16):
                    out.append(bech(mod, L + ", upper case", net, net, 1, ver, m, False if pb else None, 0, want))
                    if want != BAD:
                        for room in (1, 60): out.append(bech(mod, L + ", room %+d" % room, net, net, 0, ver, m, False if pb else None, room, want))
                    for room in sorted({-1, -8, nbytes + 1 - (h + 8 + m), nbytes - (h + 8 + m), -(h + 8 + m)}): out.append(bech(mod, L + ", room %+d" % room, net, net, 0, ver, m, False if pb else None, room, want))
                    if want != BAD and len(net) < 8:
                        for up in (0, 1):
                            P_ = UPP if up else LOWP
                            for j in range(h): out.append(bech(mod, L + ", prefix differs at %d%s" % (j, " upper" * up), net, list(net[:j]) + [[c for c in P_ if c not in (net[j], net[j] - 32) and (j or c != 49)]] + list(net[j + 1:]), up, ver, m, False if pb else None, 0, BAD))
                        if h > 1: out.append(bech(mod, L + ", prefix one shorter", net, net[:-1], 0, ver, m, False if pb else None, 0, BAD))
                        if h > 1: out.append(bech(mod, L + ", prefix without its first character", net, net[1:], 0, ver, m, False if pb else None, 0, BAD))
                        out.append(bech(mod, L + ", prefix one longer", net, list(net) + [LOWP], 0, ver, m, False if pb else None, 0, BAD))
                        out.append(bech(mod, L + ", network without Bech32", b"", net, 0, ver, m, False if pb else None, 0, BAD))
    # encoders
    for fn, field in (("fingera_to_address_pubkey", "pubkey"), ("fingera_to_address_script", "script")):
        for pre in (b"\x00", b"\x05", b"\x6f", b"\xc4", b"\x01\x02", b"\1\2\3\4\5\6\7\x80", b""):
            for k in (20, 0, 1, 32) if not thorough else range(0, 66):
                for room in (0, 1, 40, -1, -5, 4096, 4096 + 10): out.append(enc58(mod, fn, field, pre, k, room))
    for hrp in (b"bc", b"tb", b"bcrt", b"x", b"abcdefghijklmnop"):
        for room in (0, 1, 30, -1, -2, -8, -1000):
            for fn, k in (("fingera_to_address_witnessv0_keyhash", 20), ("fingera_to_address_witnessv0_scripthash", 32)):
                out.append(encw(mod, fn, k, hrp, room))
                if room == 0 and hrp == b"bc":
                    for k2 in (0, 1, 19, 20, 21, 31, 32, 33, 40, 64, 200): 
                        if k2 != k: out.append(encw(mod, fn, k2, hrp, 100))
            for k in (range(0, 46) if hrp == b"bc" and room == 0 else (3, 21, 33, 41)):
                for ver in ([0], range(1, 17), range(17, 32), range(32, 256)): out.append(encw(mod, "fingera_to_address_witness_unknown", k, hrp, room, ver))
    for k in (64, 128, 200, 300): out.append(encw(mod, "fingera_to_address_witness_unknown", k, b"bc", 0, range(1, 17)))
    return out
