"""Families of DER inputs: cells are constants, or value sets (None: any byte).  Every byte that steers the
parse is either a constant or a set lying wholly on one side of the parser's tests."""
NZ = range(1, 256)
def free(n): return [None] * n
def number(z, k): return [0] * z + ([NZ] + [None] * (k - 1) if k else [])
def short(z, k): return [0x02, z + k] + number(z, k)
def longf(z, k, lz, lb):
    """integer with a long-form length: lz zero length bytes, then lb bytes"""
    n = z + k
    return [0x02, 0x80 + lz + lb] + [0] * lz + [(n >> (8 * (lb - 1 - i))) & 255 for i in range(lb)] + number(z, k)
def seq(n=None): return [0x30, range(0, 128)] if n is None else [0x30, 0x80 + n] + free(n)
def outside(*v): return [c for c in range(256) if c not in v]

def lax(cells):
    """reference: ('bad',) | ('ok', R cells, S cells) -- index ranges of the stripped integers | None when a set straddles a test"""
    n = len(cells); pos = 0
    class Amb(Exception): pass
    def val(i):
        c = cells[i]
        if type(c) is int: return c
        raise Amb()
    def isv(i, v):
        c = cells[i]
        if type(c) is int: return c == v
        if c is None or v in c: raise Amb()
        return False
    def length(pos, skip):
        if pos == n: return None
        c = cells[pos]
        if type(c) is not int:
            if c is not None and skip and all(v < 128 for v in c): return pos + 1, 0
            lo = min(c) if c is not None else 0
            if lo & 0x80 and lo - 0x80 > n - pos - 1 or (lo < 0x80 and max(c) < 0x80 and lo > n - pos - 1): return None
            raise Amb()
        pos += 1
        if not c & 0x80: return pos, c
        k = c - 0x80
        if k > n - pos: return None
        if skip: return pos + k, 0
        while k > 0 and isv(pos, 0): pos += 1; k -= 1
        if k >= 4: return None
        v = 0
        for i in range(k): v = v << 8 | val(pos); pos += 1
        return pos, v
    try:
        if pos == n or not isv(pos, 0x30): return ("bad",)
        r = length(pos + 1, True)
        if r is None: return ("bad",)
        pos = r[0]; nums = []
        for i in range(2):
            if pos == n or not isv(pos, 0x02): return ("bad",)
            r = length(pos + 1, False)
            if r is None: return ("bad",)
            pos, k = r
            if k > n - pos: return ("bad",)
            a = pos; pos += k
            while k > 0 and isv(a, 0): a += 1; k -= 1
            nums.append((a, k))
        return ("ok",) + tuple(nums)
    except Amb: return None

def families(thorough):
    """(label, cells)"""
    out = []
    S = (0, 1, 2, 8, 20, 31, 32, 33, 34, 40)
    for a in S:
        for b in S:
            out.append(("r of %d, s of %d bytes" % (a, b), seq() + short(0, a) + short(0, b)))
            if a in (0, 1, 31, 32, 33) and b in (0, 1, 31, 32, 33) or thorough:
                for za, zb in ((1, 0), (0, 1), (1, 1), (5, 2), (40, 40)):
                    if za + a < 128 and zb + b < 128: out.append(("r of %d+%d, s of %d+%d" % (za, a, zb, b), seq() + short(za, a) + short(zb, b)))
                out.append(("r of %d, s of %d, and 3 more bytes" % (a, b), seq() + short(0, a) + short(0, b) + free(3)))
                for lz, lb in ((0, 0), (0, 1), (1, 1), (3, 1), (0, 2), (5, 2), (0, 3), (100, 3)):
                    if lb == 0 and a: continue
                    out.append(("r of %d with %d+%d length bytes, s of %d" % (a, lz, lb, b), seq() + longf(0, a, lz, lb) + short(0, b)))
                for lz, lb in ((0, 0), (0, 1), (1, 1), (3, 1), (0, 2), (5, 2), (0, 3), (100, 3)):
                    if lb == 0 and b: continue
                    out.append(("r of %d, s of %d with %d+%d length bytes" % (a, b, lz, lb), seq() + short(0, a) + longf(0, b, lz, lb)))
    for k in (0, 1, 2, 3, 8, 50, 127): out.append(("sequence length of %d bytes" % k, seq(k) + short(0, 32) + short(1, 32)))
    for a, b in ((100, 100), (127, 127)): out.append(("r of %d, s of %d bytes" % (a, b), seq() + short(0, a) + short(0, b)))
    for a, b in ((130, 4), (4, 200), (300, 300), (256, 32), (32, 256), (65536, 1), (1, 65537)):
        out.append(("long r of %d, s of %d" % (a, b), seq() + longf(0, a, 0, 3 if a > 65535 else 2) + longf(0, b, 1, 3 if b > 65535 else 2)))
    for z in (224, 300): out.append(("%d zeros and 32 bytes" % z, seq() + longf(z, 32, 0, 2) + longf(z, 32, 0, 2)))
    base = seq() + short(1, 32) + short(0, 32)
    for k in range(len(base)): out.append(("cut at %d" % k, base[:k]))
    alt = seq(3) + longf(0, 5, 2, 2) + longf(1, 5, 1, 3)
    for k in range(len(alt)): out.append(("long form cut at %d" % k, alt[:k]))
    for nm, b, at in (("sequence tag", base, 0), ("r tag", base, 2), ("s tag", base, 37), ("r tag after a long sequence length", alt, 5), ("s tag after a long r", alt, 16)):
        x = list(b); assert x[at] in (0x30, 2), (nm, x[at]); x[at] = outside(x[at]); out.append(("wrong " + nm, x))
    for k in (1, 5, 33, 70):
        tail = free(k)
        out.append(("r longer than the %d bytes left" % k, seq() + [2, range(k + 1, 128)] + tail)); out.append(("s longer than the %d bytes left" % k, seq() + short(0, 4) + [2, range(k + 1, 128)] + tail))
        out.append(("sequence length bytes beyond the %d left" % k, [0x30, range(0x80 + k + 1, 256)] + tail))
        out.append(("r length bytes beyond the %d left" % k, seq() + [2, range(0x80 + k + 1, 256)] + tail)); out.append(("s length bytes beyond the %d left" % k, seq() + short(0, 4) + [2, range(0x80 + k + 1, 256)] + tail))
    for lb in (4, 5, 8, 9, 16):
        for z in (0, 1, 3):
            out.append(("r length in %d+%d bytes" % (z, lb), seq() + [2, 0x80 + z + lb] + [0] * z + [NZ] + free(lb - 1) + free(10))); out.append(("s length in %d+%d bytes" % (z, lb), seq() + short(0, 3) + [2, 0x80 + z + lb] + [0] * z + [NZ] + free(lb - 1) + free(10)))
            # lengths that wrap 32 or 64 bits down to a small number
            out.append(("r length in %d+%d bytes, small low part" % (z, lb), seq() + [2, 0x80 + z + lb] + [0] * z + [1] + [0] * (lb - 2) + [3] + free(3) + short(0, 3))); out.append(("s length in %d+%d bytes, small low part" % (z, lb), seq() + short(0, 3) + [2, 0x80 + z + lb] + [0] * z + [1] + [0] * (lb - 2) + [3] + free(3)))
    for v in (1, 10, 0x100, 0x10000, 0xffffff):
        for k in (0, 1, 9):
            if v > k: out.append(("r length %#x with %d bytes left" % (v, k), seq() + [2, 0x83, v >> 16, (v >> 8) & 255, v & 255] + free(k))); out.append(("s length %#x with %d bytes left" % (v, k), seq() + short(0, 2) + [2, 0x83, v >> 16, (v >> 8) & 255, v & 255] + free(k)))
    return out
