"""Integers known modulo 2^32 (the word domain for the RIPEMD-160 body).

A word is an XOR of monomials; a monomial is a product (AND) of rotated bases
under a 32-bit mask: {frozenset((base, rotation)): mask}.  Bitwise operations,
rotations and shifts are exact on this form.  A base is eight input bits or a
linear combination, modulo 2^32, of words.  Equal words have equal ids when
they are written with any mixture of the usual identities (a|b = a^b^ab,
~a = a ^ ffffffff = -a-1, addition of disjoint words = or, rotation = shifts);
other equalities are looked for by evaluation and never reported as a
difference unless some assignment tells the two apart."""
import random
from terms import T, XO, tbytes, mkbytes, vbits, bset, atom

M = 0xffffffff
_words, _wid = [], {}
_bases, _bid = [], {}


def word(anf):
    """id of {monomial: mask}"""
    key = tuple(sorted(((tuple(sorted(m)), c) for m, c in anf.items() if c)))
    i = _wid.get(key)
    if i is None:
        i = len(_words)
        _words.append({frozenset(m): c for m, c in key})
        _wid[key] = i
    return i


def const(c):
    c &= M
    return word({frozenset(): c} if c else {})


def base(kind, key):
    k = (kind, key)
    i = _bid.get(k)
    if i is None:
        i = len(_bases)
        _bases.append(k)
        _bid[k] = i
    return i


def frombits(bits):
    """word of 32 (or fewer) bit ids, most significant first"""
    bits = (0,) * (32 - len(bits)) + tuple(bits)[-32:]
    out = {}
    c = 0
    for k in range(4):                       # byte k from the least significant
        bs = bits[24 - 8 * k:32 - 8 * k]
        if all(b > 1 for b in bs):
            m = frozenset([(base("byte", bs), 8 * k)])
            out[m] = out.get(m, 0) ^ (0xff << (8 * k))
            continue
        for j, b in enumerate(reversed(bs)):
            if b == 1:
                c |= 1 << (8 * k + j)
            elif b:
                m = frozenset([(base("bit", b), 8 * k + j)])
                out[m] = out.get(m, 0) ^ (1 << (8 * k + j))
    if c:
        out[frozenset()] = c
    return word(out)


def xor(a, b):
    d = dict(_words[a])
    for m, c in _words[b].items():
        d[m] = d.get(m, 0) ^ c
    return word(d)


def and_(a, b):
    x, y = _words[a], _words[b]
    if len(x) * len(y) > 4000:
        return None
    d = {}
    for m, c in x.items():
        for k, e in y.items():
            if c & e:
                u = m | k
                d[u] = d.get(u, 0) ^ (c & e)
    return word(d)


def or_(a, b):
    p = and_(a, b)
    return None if p is None else xor(xor(a, b), p)


def not_(a):
    return xor(a, const(M))


def rotl_mask(c, n):
    n &= 31
    return ((c << n) | (c >> (32 - n))) & M if n else c


def rotl(a, n):
    n &= 31
    if not n:
        return a
    return word({frozenset((b, (r + n) & 31) for b, r in m): rotl_mask(c, n) for m, c in _words[a].items()})


def shl(a, n):
    if n >= 32:
        return const(0)
    return and_(rotl(a, n), const(M << n))


def shr(a, n):
    if n >= 32:
        return const(0)
    return and_(rotl(a, (32 - n) & 31), const(M >> n))


def possible(i):
    p = 0
    for c in _words[i].values():
        p |= c
    return p


def isconst(i):
    w = _words[i]
    if not w:
        return 0
    if len(w) == 1:
        return w.get(frozenset())
    return None


def linear(i):
    """({word: coefficient}, constant) with the word the sum of them"""
    w = _words[i]
    c = isconst(i)
    if c is not None:
        return {}, c
    if len(w) == 1:
        (m, c), = w.items()
        if c == M and len(m) == 1:
            (b, r), = m
            if r == 0 and _bases[b][0] == "sum":
                items, k = _bases[b][1]
                return dict(items), k
    k = w.get(frozenset(), 0)
    if k:
        rest = {m: c for m, c in w.items() if m}
        p = 0
        for c in rest.values():
            p |= c
        if k == M:                            # ~x = -x - 1
            items, c = linear(word(rest))
            return {x: -f & M for x, f in items.items()}, (-c - 1) & M
        if not p & k:
            items, c = linear(word(rest))
            return items, (c + k) & M
    return {i: 1}, 0


def combine(items, k):
    items = {w: f & M for w, f in items.items() if f & M}
    k &= M
    if not items:
        return const(k)
    # disjoint words with coefficient 1 are merged
    ones = sorted(w for w, f in items.items() if f == 1)
    merged, seen, changed = None, 0, False
    for w in ones:
        p = possible(w)
        if p == M:
            continue
        if merged is None:
            merged, seen = w, p
            del items[w]
        elif not p & seen:
            merged, seen = xor(merged, w), p | seen
            del items[w]
    if merged is not None:
        if not items and not k & seen:
            return xor(merged, const(k))
        items[merged] = (items.get(merged, 0) + 1) & M
        if not items[merged]:
            del items[merged]
    if len(items) == 1 and not k:
        (w, f), = items.items()
        if f == 1:
            return w
        if f & (f - 1) == 0:
            return shl(w, f.bit_length() - 1)
    if len(items) == 1:
        (w, f), = items.items()
        if f == M and k == M:
            return not_(w)
    b = base("sum", (tuple(sorted(items.items())), k))
    return word({frozenset([(b, 0)]): M})


def add(a, b, f=1):
    if 2 < len(_words[a]) + len(_words[b]) <= 12:
        p = and_(a, b)                       # a + b = a ^ b when no bit is in both, a - b = a ^ b when b is in a
        if f == 1 and not _words[p] or f == -1 and p == b:
            return xor(a, b)
    x, k = linear(a)
    y, l = linear(b)
    x = dict(x)
    for w, c in y.items():
        x[w] = (x.get(w, 0) + c * f) & M
    return combine(x, k + l * f)


def mul(a, c):
    c &= M
    if c and c & (c - 1) == 0:
        return shl(a, c.bit_length() - 1)
    x, k = linear(a)
    return combine({w: f * c for w, f in x.items()}, k * c)


# ------------------------------------------------------------------ values
def W(i, exact):
    """the integer with these low 32 bits; exact: and no others"""
    c = isconst(i)
    if c is not None and exact:
        return c
    return XO("w32", i, exact)


def isw(v):
    return isinstance(v, XO) and v.kind == "w32"


def bytes_of(v, order):
    """four bytes of an exact word"""
    i = v.args[0]
    bits = as_bits(i)
    if bits is None:
        b = tbytes(T("w32", i, size=4))
    else:
        b = mkbytes(bits)
    if order == "little":
        x = vbits(b)
        b = mkbytes(tuple(q for k in (3, 2, 1, 0) for q in x[8 * k:8 * k + 8]))
    return b


def as_bits(i):
    """the bits of a word that is only input bits and constants, or None"""
    out = [0] * 32
    for m, c in _words[i].items():
        for p in range(32):
            if not c >> p & 1:
                continue
            if out[31 - p]:
                return None
            if not m:
                out[31 - p] = 1
                continue
            if len(m) > 1:
                return None
            (b, r), = m
            kind, key = _bases[b]
            j = (p - r) & 31
            if kind == "byte" and j < 8:
                out[31 - p] = key[7 - j]
            elif kind == "bit" and j == 0:
                out[31 - p] = key
            else:
                return None
    return tuple(out)


# -------------------------------------------------------------- evaluation
class Eval:
    """the value of every word under one assignment of the input bits"""

    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.bitv = {}
        self.wordv = {}
        self.basev = {}

    def bit(self, i):
        r = 0
        for a in bset(i):
            if a == 0:
                r ^= 1
                continue
            if a not in self.bitv:
                t, pos = atom(a)
                if t.kind == "w32":
                    self.bitv[a] = self.word(t.args[0]) >> (31 - pos) & 1
                else:                        # input bits, and bits of a free operator
                    self.bitv[a] = self.rnd.getrandbits(1)
            r ^= self.bitv[a]
        return r

    def word(self, i):
        todo = [("w", i)]
        while todo:
            k, j = todo[-1]
            if k == "w":
                if j in self.wordv:
                    todo.pop()
                    continue
                need = [("b", b) for m in _words[j] for b, _ in m if b not in self.basev]
                if need:
                    todo += need
                    continue
                r = 0
                for m, c in _words[j].items():
                    v = c
                    for b, n in m:
                        v &= rotl_mask(self.basev[b], n)
                    r ^= v
                self.wordv[j] = r
                todo.pop()
            else:
                if j in self.basev:
                    todo.pop()
                    continue
                kind, key = _bases[j]
                if kind == "byte":
                    v = 0
                    for b in key:
                        v = v << 1 | self.bit(b)
                elif kind == "bit":
                    v = self.bit(key)
                else:
                    items, c = key
                    need = [("w", w) for w, _ in items if w not in self.wordv]
                    if need:
                        todo += need
                        continue
                    v = (sum(f * self.wordv[w] for w, f in items) + c) & M
                self.basev[j] = v
                todo.pop()
        return self.wordv[i]

    def bytes(self, bits):
        r = 0
        for b in bits:
            r = r << 1 | self.bit(b)
        return r.to_bytes(len(bits) // 8, "big")


# ------------------------------------------------------------- operations
def lift(v, bits):
    """word id of an integer value; bits: its bits if known"""
    if isw(v):
        return v.args[0], v.args[1]
    if isinstance(v, int):
        return const(v), 0 <= v <= M
    if bits is not None:
        return frombits(bits), len(bits) <= 32
    return None, False


def op(name, a, b, abits=None, bbits=None):
    """value of an integer operation on words, None when it is not known"""
    if name in ("LShift", "RShift", "FloorDiv", "Mod", "Pow"):
        if not isinstance(b, int) or b < 0:
            return None
        x, ex = lift(a, abits)
        if x is None:
            return None
        if name == "FloorDiv" and b and b & (b - 1) == 0:
            name, b = "RShift", b.bit_length() - 1
        if name == "Mod" and b and b & (b - 1) == 0:
            if b > 1 << 32:
                return a if ex else None
            return W(and_(x, const(b - 1)), True)
        if name == "LShift":
            p = possible(x) if ex else None
            return W(shl(x, b), p is not None and p << b <= M)
        if name == "RShift":
            return W(shr(x, b), True) if ex else None
        return None
    x, ex = lift(a, abits)
    y, ey = lift(b, bbits)
    if x is None or y is None:
        return None
    if name == "Add":
        fits = ex and ey and possible(x) + possible(y) <= M
        return W(add(x, y), fits)
    if name == "Sub":
        return W(add(x, y, -1), False)
    if name == "Mult":
        for u, v in ((x, y), (y, x)):
            c = isconst(v)
            if c is not None:
                return W(mul(u, c), False)
        return None
    if name == "BitAnd":
        r = and_(x, y)
        return None if r is None else W(r, ex or ey)
    if name == "BitOr":
        r = or_(x, y)
        return None if r is None else W(r, ex and ey)
    if name == "BitXor":
        return W(xor(x, y), ex and ey)
    return None


# ------------------------------------------------------------------- spec
def rmd_words(data):
    """the 20 bytes of RIPEMD-160 of byte values (Dobbertin, Bosselaers,
    Preneel 1996) over the word domain"""
    import terms as t
    bits = list(vbits(data)) if len(data) else []
    n = len(data)
    tail = b"\x80" + bytes(-(n + 9) % 64) + (8 * n).to_bytes(8, "little")
    bits += list(vbits(tail))
    fs = (lambda x, y, z: xor(xor(x, y), z), lambda x, y, z: or_(and_(x, y), and_(not_(x), z)),
          lambda x, y, z: xor(or_(x, not_(y)), z), lambda x, y, z: or_(and_(x, z), and_(y, not_(z))),
          lambda x, y, z: xor(x, or_(y, not_(z))))
    h = [const(c) for c in t.RMD_H]
    for o in range(0, len(bits), 512):
        x = []
        for i in range(16):
            w = bits[o + 32 * i:o + 32 * i + 32]
            x.append(frombits([q for k in (3, 2, 1, 0) for q in w[8 * k:8 * k + 8]]))
        two = []
        for rs, ss, ks, flip in ((t.RMD_R, t.RMD_S, t.RMD_K, 0), (t.RMD_RR, t.RMD_SS, t.RMD_KK, 1)):
            A, B, C, D, E = h
            for j in range(80):
                r = j // 16
                s = add(add(add(A, (fs[4 - r] if flip else fs[r])(B, C, D)), x[rs[j]]), const(ks[r]))
                A, B, C, D, E = E, add(rotl(s, ss[j]), E), B, rotl(C, 10), D
            two.append((A, B, C, D, E))
        (A, B, C, D, E), (a, b, c, e, f) = two
        h = [add(add(h[1], C), e), add(add(h[2], D), f), add(add(h[3], E), a), add(add(h[4], A), b),
             add(add(h[0], B), c)]
    out = []
    for v in h:
        c = isconst(v)
        b = c.to_bytes(4, "little") if c is not None else bytes_of(W(v, True), "little")
        out.append(b)
    return t.bcat(*out)
