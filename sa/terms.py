"""Value domain of the abstract interpreter: hash-consed terms (value numbers),
bit vectors over GF(2), integers, strings, byte strings.

Concrete Python constants (int, bytes, str, bool, None, float) represent
themselves (constant propagation); everything else is one of the classes here.
All values are immutable and hashable; equal values are equal objects or
compare equal structurally."""
import hashlib

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
P = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F


class Term:
    """A value number: an operator applied to values.  `size` is the number of
    bytes when the term denotes a fixed-length byte string."""
    __slots__ = ("id", "kind", "args", "size", "taint", "h")

    def __repr__(self):
        return show(self)


# results that do not give their arguments away: public points, address hashes,
# ciphertext blocks, lengths
ONEWAY = frozenset(["ecpt", "ecx", "ecy", "ripemd160", "aesenc", "len", "strlen"])

_terms = {}
_bykey = []


def _tkey(a):
    if isinstance(a, bool):
        return ("b", a)
    if isinstance(a, float):
        return ("f", a)
    if isinstance(a, tuple):
        return tuple(_tkey(x) for x in a)
    return a


def T(kind, *args, size=None):
    key = (kind, _tkey(args), size)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.id = len(_terms)
        t.kind, t.args, t.size = kind, args, size
        tn = frozenset()
        for a in args:
            tn |= taint(a)
        if kind == "in":
            tn |= frozenset([args[0]])
        elif kind == "urandom" and size == 24:
            tn |= frozenset(["seed"])
        elif kind == "weak":
            tn |= frozenset(["predictable:" + args[0]])
        elif kind in ONEWAY:
            tn = frozenset(x for x in tn if x.startswith("predictable:"))
        t.taint = tn
        t.h = hash(("T", t.id))
        _terms[key] = t
        _bykey.append(t)
    return t


# ---------------------------------------------------------------- bits (GF(2))
# A bit expression is an XOR of atoms; it is interned as an int id.
# id 0 is the constant 0, id 1 the constant 1.  Atom 0 stands for the constant.
_sets = [frozenset(), frozenset([0])]
_ids = {_sets[0]: 0, _sets[1]: 1}
_atoms = [None]
_atom_ids = {}
_xor_cache = {}


def atom_bit(term, pos):
    k = (term.id, pos)
    a = _atom_ids.get(k)
    if a is None:
        a = len(_atoms)
        _atoms.append((term, pos))
        _atom_ids[k] = a
    return _intern(frozenset([a]))


def _intern(s):
    i = _ids.get(s)
    if i is None:
        i = len(_sets)
        _sets.append(s)
        _ids[s] = i
    return i


def bset(i):
    return _sets[i]


def atom(a):
    return _atoms[a]


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    k = (a, b) if a < b else (b, a)
    r = _xor_cache.get(k)
    if r is None:
        r = _intern(_sets[a] ^ _sets[b])
        _xor_cache[k] = r
    return r


def band(a, b):
    r = band1(a, b)
    if r > 1 and a > 1 and b > 1 and r != a and r != b:
        _and_parts.setdefault(r, (a, b))
    return r


def band1(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if bxor(a, b) == 1:
        return 0
    if len(_sets[a]) * len(_sets[b]) <= 64:
        # algebraic normal form
        r = 0
        for x in _sets[a]:
            for y in _sets[b]:
                r = bxor(r, _prod(x, y))
        return r
    if a > b:
        a, b = b, a
    return atom_bit(T("and", BitE(a), BitE(b)), 0)


def _prod(x, y):
    """product of two atoms (0 = the constant 1), canonical"""
    s = set()
    for z in (x, y):
        if z:
            t = _atoms[z][0]
            if t.kind == "prod":
                s.update(t.args[0].bits)
            else:
                s.add(_intern(frozenset([z])))
    if not s:
        return 1
    if len(s) == 1:
        return s.pop()
    return atom_bit(T("prod", BitTuple(tuple(sorted(s)))), 0)


# how conjunctions and disjunctions were put together: a|b is 0 exactly when a
# and b are, a&b is 1 exactly when a and b are
_or_parts = {}
_and_parts = {}


def bor(a, b):
    r = bxor(bxor(a, b), band(a, b))
    if r > 1 and a > 1 and b > 1 and r != a and r != b:
        _or_parts.setdefault(r, (a, b))
    return r


def zero_parts(diffs):
    """bits that are all 0 exactly when those of diffs are"""
    if not any(d in _or_parts or bxor(d, 1) in _and_parts for d in diffs):
        return diffs
    out = set()
    todo = list(diffs)
    seen = set()
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        if d in _or_parts:
            todo += _or_parts[d]
        elif bxor(d, 1) in _and_parts:
            todo += [bxor(x, 1) for x in _and_parts[bxor(d, 1)]]
        else:
            out.add(d)
    return tuple(sorted(out - {0}))


class BitE:
    """wrapper so that a bit expression can be a term argument"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __hash__(self):
        return hash(("BitE", self.b))

    def __eq__(self, o):
        return isinstance(o, BitE) and o.b == self.b

    def __repr__(self):
        return showbit(self.b)


def bits_taint(bits):
    r = set()
    seen = set()
    for b in bits:
        if b > 1 and b not in seen:
            seen.add(b)
            for a in _sets[b]:
                if a:
                    r |= _atoms[a][0].taint
    return frozenset(r)


# ---------------------------------------------------------------- byte strings
class BV:
    """bytes of known length; bits most significant first."""
    __slots__ = ("bits", "h", "_t")

    def __init__(self, bits):
        self.bits = bits
        self.h = hash(("BV", bits))
        self._t = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, BV) and o.h == self.h and o.bits == self.bits

    def __len__(self):
        return len(self.bits) // 8

    @property
    def taint(self):
        if self._t is None:
            self._t = bits_taint(self.bits)
        return self._t

    def __repr__(self):
        return show(self)


def cbits(data):
    out = []
    for c in data:
        for i in range(7, -1, -1):
            out.append((c >> i) & 1)
    return tuple(out)


def mkbytes(bits):
    bits = tuple(bits)
    assert len(bits) % 8 == 0
    for b in bits:
        if b > 1:
            return BV(bits)
    out = bytearray()
    for i in range(0, len(bits), 8):
        v = 0
        for b in bits[i:i + 8]:
            v = (v << 1) | b
        out.append(v)
    return bytes(out)


def tbits(term, lo=0, hi=None):
    """bits of byte term `term` from byte lo to byte hi"""
    if hi is None:
        hi = term.size
    return tuple(atom_bit(term, p) for p in range(lo * 8, hi * 8))


def tbytes(term, lo=0, hi=None):
    return mkbytes(tbits(term, lo, hi))


class VB:
    """bytes of unknown length: a concatenation of BV/bytes and opaque Terms."""
    __slots__ = ("parts", "h")

    def __init__(self, parts):
        self.parts = parts
        self.h = hash(("VB", parts))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, VB) and o.parts == self.parts

    @property
    def taint(self):
        return taint(self.parts)

    def __repr__(self):
        return show(self)


def isbytes(v):
    return isinstance(v, (bytes, BV, VB))


def fixed(v):
    return isinstance(v, (bytes, BV))


def vbits(v):
    return cbits(v) if isinstance(v, bytes) else v.bits


def bcat(*vs):
    parts = []
    for v in vs:
        if isinstance(v, VB):
            parts.extend(v.parts)
        else:
            parts.append(v)
    out = []
    for p in parts:
        if isinstance(p, Term):
            out.append(p)
        elif len(p) == 0:
            continue
        elif out and not isinstance(out[-1], Term):
            out[-1] = mkbytes(vbits(out[-1]) + vbits(p))
        else:
            out.append(p)
    if not out:
        return b""
    if len(out) == 1 and not isinstance(out[0], Term):
        return out[0]
    return VB(tuple(out))


def bslice(v, a, b):
    """slice of a fixed-length byte string, concrete non-negative bounds"""
    if isinstance(v, bytes):
        return v[a:b]
    return mkbytes(v.bits[8 * a:8 * b])


# ---------------------------------------------------------------- strings
class SS:
    """string: concatenation of str constants and string Terms"""
    __slots__ = ("parts", "h")

    def __init__(self, parts):
        self.parts = parts
        self.h = hash(("SS", parts))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, SS) and o.parts == self.parts

    @property
    def taint(self):
        return taint(self.parts)

    def __repr__(self):
        return show(self)


# string term kinds of known length
def strterm_len(t):
    if t.kind == "hex":
        return 2 * len(t.args[0]) if fixed(t.args[0]) else None
    if t.kind in ("tabch", "ch"):
        return 1
    if t.kind == "b58":
        b = b58_bounds(t)
        if b is not None and b[0] == b[1]:
            return b[0]
    return None


def scat(*vs):
    out = []
    for v in vs:
        ps = v.parts if isinstance(v, SS) else ((v,) if isinstance(v, Term) else (v,))
        for p in ps:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            elif p.kind == "hex" and out and isinstance(out[-1], Term) and out[-1].kind == "hex":
                out[-1] = T("hex", bcat(out[-1].args[0], p.args[0]))
                continue
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SS(tuple(out))


def isstr(v):
    return isinstance(v, (str, SS))


def mkhex(b):
    if isinstance(b, bytes):
        return b.hex()
    # 'hex' terms over constants inside a BV stay one canonical term
    return SS((T("hex", b),))


def sterm(v):
    """the single term of a string value, if it is one"""
    if isinstance(v, SS) and len(v.parts) == 1:
        return v.parts[0]
    return None


# ---------------------------------------------------------------- integers
class SI:
    """integer: canonical polynomial over integer atoms (Terms).
    poly: tuple of (monomial, coeff), monomial = tuple of Terms sorted by id.
    bits: most-significant-first bit expressions when unconditionally known."""
    __slots__ = ("poly", "bits", "h")

    def __init__(self, poly, bits=None):
        self.poly = poly
        self.bits = bits
        self.h = hash(("SI", poly))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, SI) and o.poly == self.poly

    @property
    def taint(self):
        r = frozenset()
        for m, _ in self.poly:
            for t in m:
                r |= t.taint
        return r

    def __repr__(self):
        return show(self)


def iatom(term):
    return mkint_poly({(term,): 1})


def int_bits(bits):
    """integer with these bits (MSB first)"""
    bits = tuple(bits)
    i = 0
    while i < len(bits) and bits[i] == 0:
        i += 1
    bits = bits[i:]
    if all(b <= 1 for b in bits):
        v = 0
        for b in bits:
            v = (v << 1) | b
        return v
    t = full_term(bits)
    if t is None:
        t = T("ubits", BitTuple(bits))
    elif t.kind == "polyint":
        return SI(t.args[0].poly, bits)
    return SI((((t,), 1),), bits)


class BitTuple:
    __slots__ = ("bits", "h")

    def __init__(self, bits):
        self.bits = bits
        self.h = hash(("BT", bits))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, BitTuple) and o.bits == self.bits

    @property
    def taint(self):
        return bits_taint(self.bits)


def full_term(bits):
    """the term all of whose bits these are, in order (byte term read as
    big-endian integer, or integer term down to its least significant bit)"""
    s = _sets[bits[0]]
    if len(s) != 1:
        return None
    (a,) = s
    if a == 0:
        return None
    t, p = _atoms[a]
    n = len(bits)
    if t.size is not None and p == 0 and n == 8 * t.size:
        want = range(0, n)
    elif p < 0 and p == -n:
        want = range(-n, 0)
    else:
        return None
    for b, w in zip(bits, want):
        if b != atom_bit(t, w):
            return None
    if p < 0:
        # integer term: only canonical when declared width is this width
        if t.kind in ("int", "polyint") and t.args[-1] == n or \
                t.kind == "mod" and t.args[-1].bit_length() <= n:
            return t
        return None
    return t


def mkint_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
        if len(m) == 1 and c == 1:
            t = m[0]
            if t.kind == "ubits":
                return SI(((m, 1),), t.args[0].bits)
            if t.size is not None:
                return SI(((m, 1),), tbits(t))
    return SI(tuple(sorted(d.items(), key=lambda x: tuple(t.id for t in x[0]))))


def poly(v):
    if isinstance(v, int):
        return {(): int(v)} if v else {}
    return dict(v.poly)


def ibits(v):
    """MSB-first bits without leading zeros, or None"""
    if isinstance(v, int):
        if v < 0:
            return None
        return tuple(int(c) for c in bin(v)[2:]) if v else ()
    return v.bits


def _pad(a, b):
    n = max(len(a), len(b))
    return (0,) * (n - len(a)) + tuple(a), (0,) * (n - len(b)) + tuple(b)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    x, y = ibits(a), ibits(b)
    if x is not None and y is not None:
        x, y = _pad(x, y)
        if all(p == 0 or q == 0 for p, q in zip(x, y)):
            return int_bits(bxor(p, q) for p, q in zip(x, y))
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return mkint_poly(d)


def ineg(a):
    if isinstance(a, int):
        return -a
    return mkint_poly({m: -c for m, c in poly(a).items()})


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    x, y = ibits(a), ibits(b)
    if x is not None and y is not None:
        x, y = _pad(x, y)
        if all(q == 0 or p == q for p, q in zip(x, y)):
            return int_bits(p if q == 0 else 0 for p, q in zip(x, y))
    return iadd_poly(a, ineg(b))


def iadd_poly(a, b):
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return mkint_poly(d)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        y = ibits(b)
        if y is not None and a > 0 and a & (a - 1) == 0:
            return int_bits(tuple(y) + (0,) * (a.bit_length() - 1))
        return mkint_poly({m: c * a for m, c in poly(b).items()})
    d = {}
    for m1, c1 in poly(a).items():
        for m2, c2 in poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    return mkint_poly(d)


def modpoly(v, n):
    """poly reduced modulo n, looking through (x mod n) atoms"""
    d = {}
    for m, c in poly(v).items():
        q = {(): c}
        for t in m:
            if t.kind == "mod" and t.args[1] == n:
                f = dict(t.args[0].poly) if isinstance(t.args[0], SI) else {(): t.args[0]}
            else:
                f = {(t,): 1}
            r = {}
            for m1, c1 in q.items():
                for m2, c2 in f.items():
                    mm = tuple(sorted(m1 + m2, key=lambda t: t.id))
                    r[mm] = (r.get(mm, 0) + c1 * c2) % n
            q = r
        for mm, cc in q.items():
            d[mm] = (d.get(mm, 0) + cc) % n
    return {m: c for m, c in d.items() if c}


# ---------------------------------------------------------------- other values
class Tup:
    __slots__ = ("items", "h", "cls")

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls
        self.h = hash(("Tup", self.items))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items and \
            all(type(a) is type(b) for a, b in zip(o.items, self.items))

    @property
    def taint(self):
        return taint(self.items)

    def __repr__(self):
        return "(" + ", ".join(show(x) for x in self.items) + ")"


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __hash__(self):
        return hash(("Ref", self.id))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __repr__(self):
        return f"<ref {self.id}>"


class Unk:
    """a value the analysis knows nothing about (top)"""
    __slots__ = ("why", "taint")

    def __init__(self, why, tn=frozenset()):
        self.why = why
        self.taint = tn

    def __hash__(self):
        return hash(("Unk", self.why, self.taint))

    def __eq__(self, o):
        return isinstance(o, Unk) and o.why == self.why and o.taint == self.taint

    def __repr__(self):
        return f"<unknown: {self.why}>"


class Ext:
    """external (library / builtin) function, class, module or constant"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __repr__(self):
        return f"<{self.name}>"


class XO:
    """immutable external object: kind + values (AES cipher, key, point ...)"""
    __slots__ = ("kind", "args", "h")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self.h = hash(("XO", kind, args))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, XO) and o.kind == self.kind and o.args == self.args

    @property
    def taint(self):
        return taint(self.args)

    def __repr__(self):
        return f"{self.kind}({', '.join(show(a) for a in self.args)})"


class Bound:
    """bound method: builtin-type method or external"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __hash__(self):
        return hash(("Bound", self.obj, self.name))

    def __eq__(self, o):
        return isinstance(o, Bound) and o.obj == self.obj and o.name == self.name

    @property
    def taint(self):
        return taint(self.obj)

    def __repr__(self):
        return f"<method {self.name}>"


_EMPTY = frozenset()


def taint(v):
    if v is None or isinstance(v, (bool, int, str, bytes, float, Ref, Ext)):
        return _EMPTY
    if isinstance(v, Term):
        return v.taint
    if isinstance(v, BitE):
        return bits_taint((v.b,))
    if isinstance(v, (tuple, list, frozenset)):
        r = _EMPTY
        for x in v:
            r |= taint(x)
        return r
    return getattr(v, "taint", _EMPTY)


# ---------------------------------------------------------------- constructors
def sha256(d):
    if isinstance(d, bytes):
        return hashlib.sha256(d).digest()
    return tbytes(T("sha256", d, size=32))


RMD_K = (0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e)
RMD_KK = (0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0)
RMD_R = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
         3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
         4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13)
RMD_RR = (5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
          15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
          12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11)
RMD_S = (11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
         11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
         9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6)
RMD_SS = (8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
          9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
          8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11)
RMD_H = (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)


def rmd(d):
    """RIPEMD-160 of constant bytes (Dobbertin, Bosselaers, Preneel 1996)"""
    M = 0xffffffff
    fs = (lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & z), lambda x, y, z: (x | ~y) ^ z,
          lambda x, y, z: (x & z) | (y & ~z), lambda x, y, z: x ^ (y | ~z))
    rol = lambda x, n: ((x << n) | ((x & M) >> (32 - n))) & M
    m = d + b"\x80" + bytes(-(len(d) + 9) % 64) + (8 * len(d)).to_bytes(8, "little")
    h = list(RMD_H)
    for o in range(0, len(m), 64):
        x = [int.from_bytes(m[o + 4 * i:o + 4 * i + 4], "little") for i in range(16)]
        two = []
        for rs, ss, ks, flip in ((RMD_R, RMD_S, RMD_K, 0), (RMD_RR, RMD_SS, RMD_KK, 1)):
            A, B, C, D, E = h
            for j in range(80):
                r = j // 16
                t = (rol((A + (fs[4 - r] if flip else fs[r])(B, C, D) + x[rs[j]] + ks[r]) & M, ss[j]) + E) & M
                A, B, C, D, E = E, t, B, rol(C, 10), D
            two.append((A, B, C, D, E))
        (A, B, C, D, E), (a, b, c, e, f) = two
        h = [(h[1] + C + e) & M, (h[2] + D + f) & M, (h[3] + E + a) & M, (h[4] + A + b) & M, (h[0] + B + c) & M]
    return b"".join(v.to_bytes(4, "little") for v in h)


def ripemd160(d):
    if isinstance(d, bytes):
        return rmd(d)
    return tbytes(T("ripemd160", d, size=20))


def hashterm(algo, size, d):
    return tbytes(T(algo, d, size=size))


def whole(v):
    """the byte term of which v is exactly the whole, or None"""
    if isinstance(v, BV):
        t = full_term(v.bits)
        if t is not None and t.size == len(v) and atom_bit(t, 0) == v.bits[0]:
            return t
    return None


def aesenc(key, x):
    t = whole(x)
    if t is not None and t.kind == "aesdec" and t.args[0] == key:
        return t.args[1]
    return tbytes(T("aesenc", key, x, size=16))


def aesdec(key, x):
    t = whole(x)
    if t is not None and t.kind == "aesenc" and t.args[0] == key:
        return t.args[1]
    return tbytes(T("aesdec", key, x, size=16))


def scrypt(pw, salt, n, r, p, length):
    return tbytes(T("scrypt", pw, salt, n, r, p), 0, length)


def nfc(s, form="NFC"):
    if isinstance(s, str):
        import unicodedata
        return unicodedata.normalize(form, s)
    t = sterm(s)
    if t is not None and t.kind == "normalize":
        # composing or decomposing again: the last step decides composition,
        # either step decides compatibility
        if "K" in t.args[0]:
            form = "NFK" + form[-1]
        if t.args[0] == form:
            return s
        s = t.args[1]
    return SS((T("normalize", form, s),))


def encode_str(s, enc="utf8"):
    """bytes of a string value in utf-8"""
    if isinstance(s, str):
        return s.encode("utf-8")
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p.encode("utf-8"))
        elif p.kind == "decodeutf8":
            out.append(p.args[0])
        elif p.kind == "ch":
            out.append(mkbytes(p.args[0].bits))
        elif p.kind == "tabch" and all(ord(c) < 128 for c in p.args[0]):
            out.append(tbytes(T("tabbyte", p.args[0].encode(), p.args[1], size=1)))
        else:
            out.append(VB((T("utf8", p),)))
    return bcat(*out)


def b58enc(alphabet, data):
    if isinstance(data, bytes):
        v, s = int.from_bytes(data, "big"), ""
        while v:
            v, m = divmod(v, 58)
            s = alphabet[m] + s
        return alphabet[0] * (len(data) - len(data.lstrip(b"\0"))) + s
    if fixed(data):
        t = whole(data)
        if t is not None and t.kind == "dec" and t.args[1] == alphabet:
            return t.args[0]
    return SS((T("b58", alphabet, data),))


def b58digits(n, base=58):
    c = 0
    while n:
        n //= base
        c += 1
    return c


def b58_bounds(t):
    """(min length, max length, common leading characters) of a Base58 term"""
    alpha, data = t.args
    if not fixed(data) or not isinstance(alpha, str) or len(alpha) < 2:
        return None
    bits = vbits(data)
    lo = hi = 0
    for b in bits:
        lo = lo << 1 | (1 if b == 1 else 0)
        hi = hi << 1 | (0 if b == 0 else 1)
    n = len(data)
    base = len(alpha)

    def enc(v):
        s = ""
        x = v
        while x:
            x, m = divmod(x, base)
            s = alpha[m] + s
        z = n - (v.bit_length() + 7) // 8
        return alpha[0] * z + s
    a, b = enc(lo), enc(hi)
    if (lo.bit_length() + 7) // 8 == (hi.bit_length() + 7) // 8:
        ln = (len(a), len(b))
        pre = ""
        if len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    break
                pre += x
        return min(ln), max(ln), pre
    # leading zero bytes may vary
    zlead = 0
    for i in range(n):
        if all(x == 0 for x in bits[8 * i:8 * i + 8]):
            zlead += 1
        else:
            break
    return n, int(n * 1.3658) + 2, alpha[0] * zlead


# ---- secp256k1
def ecpt(base, scal):
    """scal: dict poly mod N"""
    key = tuple(sorted(scal.items(), key=lambda x: tuple(t.id for t in x[0])))
    return T("ecpt", base, key)


G = ecpt("G", {(): 1})


def ecmul(pt, k):
    """pt * integer value k"""
    base, key = pt.args
    d = {}
    for m1, c1 in key:
        for m2, c2 in modpoly(k, N).items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = (d.get(m, 0) + c1 * c2) % N
    return ecpt(base, {m: c for m, c in d.items() if c})


def ecadd(a, b):
    if a.args[0] == b.args[0]:
        d = dict(a.args[1])
        for m, c in b.args[1]:
            d[m] = (d.get(m, 0) + c) % N
        return ecpt(a.args[0], {m: c for m, c in d.items() if c})
    if a.id > b.id:
        a, b = b, a
    return ecpt(T("ecsum", a, b), {(): 1})


def ecx(pt):
    return T("ecx", pt, size=32)


def ecy(pt):
    return T("ecy", pt, size=32)


def opaque_pt(*key):
    return ecpt(T("ecbase", *key), {(): 1})


def _parsed(pt):
    """the encoding an opaque point was parsed from"""
    base, key = pt.args
    if isinstance(base, Term) and base.kind == "ecbase" and key == (((), 1),):
        return base.args
    return (None,)


def ecx_bits(pt):
    a = _parsed(pt)
    if a[0] in ("xy", "comp"):
        return a[1].bits
    return tbits(ecx(pt))


def ecy_bits(pt):
    a = _parsed(pt)
    if a[0] == "xy":
        return a[2].bits
    if a[0] == "comp":
        return tbits(ecy(pt))[:255] + (a[2].b,)
    return tbits(ecy(pt))


def ec_compressed(pt):
    return mkbytes((0, 0, 0, 0, 0, 0, 1, ecy_bits(pt)[255]) + ecx_bits(pt))


def ec_uncompressed(pt):
    return mkbytes(cbits(b"\x04") + ecx_bits(pt) + ecy_bits(pt))


def ec_raw(pt):
    return mkbytes(ecx_bits(pt) + ecy_bits(pt))


def find_pt(xb, yb):
    """the point whose affine coordinates these bits are, if known"""
    for b in yb[:1] + xb[:1]:
        for a in _sets[b]:
            if a:
                t, p = _atoms[a]
                if t.kind in ("ecx", "ecy"):
                    pt = t.args[0]
                    if ecx_bits(pt) == xb and ecy_bits(pt) == yb:
                        return pt
    return None


def find_pt_compressed(xb, par):
    for b in xb[:1]:
        for a in _sets[b]:
            if a:
                t, p = _atoms[a]
                if t.kind == "ecx" and tbits(t) == xb:
                    pt = t.args[0]
                    if ecy_bits(pt)[255] == par:
                        return pt
                    if bxor(ecy_bits(pt)[255], 1) == par:
                        return ecmul(pt, -1)
    return None


# ---------------------------------------------------------------- printing
def showbit(b):
    if b <= 1:
        return str(b)
    out = []
    for a in sorted(_sets[b]):
        if a == 0:
            out.append("1")
        else:
            t, p = _atoms[a]
            out.append(f"{show(t, 1)}[{p}]")
    return "^".join(out)


def _bytesegs(bits):
    """segments of a bit vector for printing"""
    out = []
    i = 0
    n = len(bits)
    while i < n:
        j = i
        if all(b <= 1 for b in bits[i:i + 8]):
            while j < n and all(b <= 1 for b in bits[j:j + 8]):
                j += 8
            out.append(mkbytes(bits[i:j]).hex())
        else:
            def sig(k):
                seg = bits[k:k + 8]
                s = []
                base = []
                for q, b in enumerate(seg):
                    st = []
                    for a in _sets[b]:
                        if a:
                            t, p = _atoms[a]
                            st.append((t, p - q))
                        else:
                            st.append((None, 0))
                    s.append(frozenset(st))
                return s
            s0 = sig(i)
            if all(x == s0[0] for x in s0):
                j = i + 8
                while j < n:
                    s1 = sig(j)
                    exp = frozenset((t, p + 0) for t, p in s0[0])
                    shifted = frozenset((t, p - (j - i)) if t else (t, p) for t, p in s1[0])
                    if all(x == s1[0] for x in s1) and shifted == exp:
                        j += 8
                    else:
                        break
                names = []
                for t, p in sorted(s0[0], key=lambda x: -1 if x[0] is None else x[0].id):
                    if t is None:
                        names.append("ff..")
                    else:
                        a = p + i - i
                        if t.size is not None and p == 0 and (j - i) == 8 * t.size:
                            names.append(show(t, 1))
                        else:
                            names.append(f"{show(t, 1)}[{p // 8}:{(p + j - i) // 8}]")
                out.append("^".join(names))
            else:
                j = i + 8
                out.append("<" + ",".join(showbit(b) for b in bits[i:j]) + ">")
        i = j
    return out


_depth = [0]


def show(v, nest=0):
    _depth[0] += 1
    try:
        if _depth[0] > 14:
            return "…"
        return _show(v)
    finally:
        _depth[0] -= 1


def _show(v):
    if isinstance(v, BV):
        return "·".join(_bytesegs(v.bits))
    if isinstance(v, BitTuple):
        b = v.bits
        pad = (-len(b)) % 8
        return "·".join(_bytesegs((0,) * pad + b))
    if isinstance(v, BitE):
        return showbit(v.b)
    if isinstance(v, VB):
        return "·".join(show(p) for p in v.parts)
    if isinstance(v, SS):
        return "+".join(show(p) for p in v.parts)
    if isinstance(v, bytes):
        return "x" + v.hex()
    if isinstance(v, Term):
        if v.kind == "in":
            return str(v.args[0])
        if v.kind == "int":
            return str(v.args[0])
        if v.kind == "ecpt":
            base, key = v.args
            sc = _showpoly(key)
            return f"{show(base)}*({sc})"
        if v.kind == "dec":
            return f"b58decode[{v.args[2]}]({show(v.args[0])})"
        if v.kind == "b58":
            return f"b58({show(v.args[1])})" if str(v.args[0]).startswith("123456789A") else \
                f"b58<{str(v.args[0])[:6]}>({show(v.args[1])})"
        return f"{v.kind}({', '.join(show(a) for a in v.args)})"
    if isinstance(v, SI):
        return _showpoly(v.poly)
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return repr(v)


def _showpoly(key):
    out = []
    for m, c in key:
        s = "*".join(show(t) for t in m)
        if not m:
            out.append(hex(c) if abs(c) > 9999 else str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append(f"{c if abs(c) < 10000 else hex(c)}*{s}")
    return " + ".join(out) or "0"


_vague = {}


def vague(v):
    """does the value contain an unknown one (whose meaning the analysis has lost)?"""
    if isinstance(v, Term):
        r = _vague.get(v.id)
        if r is None:
            _vague[v.id] = False
            r = _vague[v.id] = any(vague(a) for a in v.args)
        return r
    if isinstance(v, Unk):
        return not isinstance(v.why, Term) or vague(v.why)
    if isinstance(v, (VB, SS)):
        return any(vague(p) for p in v.parts)
    if isinstance(v, SI):
        return any(vague(t) for m, _ in v.poly for t in m)
    if isinstance(v, (BV, BitTuple)):
        return any(vague(atom(a)[0]) for b in set(v.bits) if b > 1 for a in bset(b) if a)
    if isinstance(v, BitE):
        return vague(BitTuple((v.b,)))
    if isinstance(v, Tup):
        return any(vague(x) for x in v.items)
    if isinstance(v, tuple):
        return any(vague(x) for x in v)
    return False
