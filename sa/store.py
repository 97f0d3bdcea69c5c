"""Path facts: what is known about atoms on a set of paths.

Facts are literals.  The derived store keeps
  subst : atom -> bit expression          (GF(2) equalities, fully reduced)
  dom   : (term, byte index) -> 256-bit mask of values that byte may have
  iv    : key -> interval set              (key = polynomial without constant)
  neq   : tuples of bit differences, not all zero
  flag  : opaque condition -> value
Everything is decided by table lookup and propagation; there is no search."""
from terms import *
import terms as _t

INF = None
TOP = ((None, None),)


def iv_and(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l = l1 if l2 is None else (l2 if l1 is None else max(l1, l2))
            h = h1 if h2 is None else (h2 if h1 is None else min(h1, h2))
            if l is None or h is None or l <= h:
                out.append((l, h))
    return tuple(sorted(set(out), key=lambda x: (x[0] is not None, x[0] or 0)))


def iv_not(a):
    cur = [(None, None)]
    for l, h in a:
        nxt = []
        for x, y in cur:
            # part below l
            if l is not None and (x is None or x < l):
                nxt.append((x, l - 1 if y is None or y > l - 1 else y))
            if h is not None and (y is None or y > h):
                nxt.append((h + 1 if x is None or x < h + 1 else x, y))
        cur = [(x, y) for x, y in nxt if x is None or y is None or x <= y]
    return tuple(sorted(set(cur), key=lambda x: (x[0] is not None, x[0] or 0)))


def iv_lo(a):
    return a[0][0]


def iv_hi(a):
    return a[-1][1]


class Infeasible(Exception):
    pass


class Store:
    __slots__ = ("subst", "dom", "iv", "neq", "flag")

    def __init__(self):
        self.subst, self.dom, self.iv, self.neq, self.flag = {}, {}, {}, (), {}

    def copy(self):
        s = Store()
        s.subst, s.dom, s.iv, s.neq, s.flag = \
            dict(self.subst), dict(self.dom), dict(self.iv), self.neq, dict(self.flag)
        return s

    # ------------------------------------------------------------ bits
    def nbit(self, b):
        if b <= 1 or not self.subst:
            return b
        sub = self.subst
        s = bset(b)
        for a in s:
            if a in sub:
                break
        else:
            return b
        r = 0
        for a in s:
            if a in sub:
                r = bxor(r, sub[a])
            elif a == 0:
                r = bxor(r, 1)
            else:
                t, p = atom(a)
                r = bxor(r, atom_bit(t, p))
        return r

    def nbits(self, bits):
        if not self.subst:
            return tuple(bits)
        return tuple(self.nbit(b) for b in bits)

    def pin(self, b, val):
        """assert bit expression b == val"""
        b = self.nbit(b)
        d = bxor(b, val)
        if d == 0:
            return
        if d == 1:
            raise Infeasible
        atoms = [a for a in bset(d) if a]
        piv = self.pivot(atoms)
        t, p = atom(piv)
        rhs = bxor(d, atom_bit(t, p))
        sub = {}
        pset = piv
        for a, e in self.subst.items():
            if pset in bset(e):
                sub[a] = bxor(bxor(e, atom_bit(t, p)), rhs)
        self.subst.update(sub)
        self.subst[piv] = rhs
        # byte domain
        if rhs <= 1:
            self.dom_from_bit(t, p, rhs)
        for a in sub:
            if self.subst[a] <= 1:
                t2, p2 = atom(a)
                self.dom_from_bit(t2, p2, self.subst[a])

    def pivot(self, atoms):
        best = None
        for a in atoms:
            t, p = atom(a)
            k = t.kind
            r = 0 if k in ("dec", "in") else (1 if k in ("int",) else 2)
            # among inputs prefer the later position (checksums sit at the end)
            key = (r, -t.id if r == 2 else t.id, -p)
            if best is None or key < best[0]:
                best = (key, a)
        return best[1]

    def dom_from_bit(self, t, p, v):
        if p < 0:
            return
        k = (t.id, p // 8)
        d = self.dom.get(k)
        if d is None:
            return
        q = 7 - p % 8
        m = 0
        for x in range(256):
            if (d >> x) & 1 and ((x >> q) & 1) == v:
                m |= 1 << x
        if m == 0:
            raise Infeasible
        if m != d:
            self.set_dom(t, p // 8, m)

    def set_dom(self, t, i, m):
        if m == 0:
            raise Infeasible
        self.dom[(t.id, i)] = m
        a1, a0 = 255, 255
        for x in range(256):
            if (m >> x) & 1:
                a1 &= x
                a0 &= ~x & 255
        for q in range(8):
            if (a1 >> (7 - q)) & 1:
                self.pin(atom_bit(t, i * 8 + q), 1)
            elif (a0 >> (7 - q)) & 1:
                self.pin(atom_bit(t, i * 8 + q), 0)

    def get_dom(self, t, i):
        d = self.dom.get((t.id, i))
        if d is None:
            d = 0
            known = [self.nbit(atom_bit(t, i * 8 + q)) for q in range(8)]
            for x in range(256):
                if all(k > 1 or ((x >> (7 - q)) & 1) == k for q, k in enumerate(known)):
                    d |= 1 << x
        return d

    def byte_var(self, bits):
        """(term, index) if all free atoms of these bits belong to one byte of
        a byte term, else None"""
        v = None
        for b in bits:
            if b > 1:
                for a in bset(b):
                    if a:
                        t, p = atom(a)
                        if p < 0:
                            return None
                        if v is None:
                            v = (t, p // 8)
                        elif v != (t, p // 8):
                            return None
        return v

    @staticmethod
    def eval_bits(bits, t, i, x):
        v = 0
        for b in bits:
            r = 0
            for a in bset(b):
                if a == 0:
                    r ^= 1
                else:
                    r ^= (x >> (7 - atom(a)[1] % 8)) & 1
            v = (v << 1) | r
        return v

    def values(self, bits, limit=256):
        """set of possible values of these bits if they depend on one byte"""
        nb = self.nbits(bits)
        if all(b <= 1 for b in nb):
            v = 0
            for b in nb:
                v = v << 1 | b
            return {v}
        bv = self.byte_var(nb)
        if bv is None:
            return None
        t, i = bv
        d = self.get_dom(t, i)
        return {self.eval_bits(nb, t, i, x) for x in range(256) if (d >> x) & 1}

    def filter_byte(self, bits, pred):
        nb = self.nbits(bits)
        bv = self.byte_var(nb)
        t, i = bv
        d = self.get_dom(t, i)
        m = 0
        for x in range(256):
            if (d >> x) & 1 and pred(self.eval_bits(nb, t, i, x)):
                m |= 1 << x
        self.set_dom(t, i, m)

    # ------------------------------------------------------------ ranges
    def atom_range(self, t):
        r = self.iv.get((((t,), 1),))
        base = None
        if t.kind == "ubits":
            bits = t.args[0].bits
            base = self.bits_range(bits)
        elif t.size is not None:
            base = self.bits_range(tbits(t))
            if t.kind in ("ecx", "ecy"):
                base = iv_and(base, ((0, _t.P - 1),))
        elif t.kind == "int":
            base = TOP
            if len(t.args) > 1 and isinstance(t.args[-1], int):
                base = ((0, (1 << t.args[-1]) - 1),)
        elif t.kind == "mod":
            base = ((1 if self.nonzero_mod(t) else 0, t.args[1] - 1),)
        elif t.kind == "find":
            base = self.find_range(t)
        elif t.kind == "polyint":
            lo, hi = self.rng(t.args[0])
            base = ((lo, hi),)
        elif t.kind == "div":
            lo, hi = self.rng(t.args[0])
            c = t.args[1]
            base = ((None if lo is None else lo // c, None if hi is None else hi // c),)
        elif t.kind in ("len", "bitlen", "count", "strlen"):
            base = ((0, None),)
            if t.kind == "strlen" and isinstance(t.args[0], Term) and t.args[0].kind == "b58":
                b = b58_bounds(t.args[0])
                if b is not None:
                    base = ((b[0], b[1]),)
        else:
            base = TOP
        if r is not None:
            base = iv_and(base, r)
        return base

    def nonzero_mod(self, t):
        """a product of numbers in [1, N-1] is not 0 modulo the prime N"""
        v, n = t.args
        if n != _t.N or not isinstance(v, SI) or len(v.poly) != 1:
            return False
        (m, c), = v.poly
        if c % n == 0 or not m:
            return False
        for a in m:
            r = self.atom_range(a)
            if not r or iv_lo(r) is None or iv_lo(r) < 1 or iv_hi(r) is None or iv_hi(r) >= n:
                return False
        return True

    def bits_range(self, bits):
        nb = self.nbits(bits)
        vals = None
        if len(nb) <= 8:
            vs = self.values(bits)
            if vs is not None and vs:
                out = []
                for x in sorted(vs):
                    if out and out[-1][1] == x - 1:
                        out[-1] = (out[-1][0], x)
                    else:
                        out.append((x, x))
                return tuple(out)
        lo = hi = 0
        i = 0
        top = len(nb) % 8
        while i < len(nb):
            g = nb[i:i + (top if top and i == 0 else 8)]
            i += len(g)
            vs = None
            if self.dom and any(b > 1 for b in g):
                bv = self.byte_var(g)
                if bv is not None and (bv[0].id, bv[1]) in self.dom:
                    vs = self.values(g)
            if vs:
                lo, hi = lo << len(g) | min(vs), hi << len(g) | max(vs)
                continue
            for b in g:
                lo = lo << 1 | (1 if b == 1 else 0)
                hi = hi << 1 | (0 if b == 0 else 1)
        r = self.slice_range(bits)
        if r is not None:
            l, h = r
            if l is not None and l > lo:
                lo = l
            if h is not None and h < hi:
                hi = h
        return ((lo, hi),)

    @staticmethod
    def slice_range_key(bits):
        i = 0
        while i < len(bits) and bits[i] == 0:
            i += 1
        bits = bits[i:]
        if not bits:
            return None
        s = bset(bits[0])
        if len(s) != 1 or 0 in s:
            return None
        t, p = atom(next(iter(s)))
        if p >= 0 or t.kind != "polyint" or p != -t.args[-1]:
            return None
        for b in bits:
            if b != atom_bit(t, p):
                return None
            p += 1
        return t, -p

    def slice_range(self, bits):
        """range of the upper bits of an integer term: its range, shifted"""
        k = self.slice_range_key(bits)
        if k is None:
            return None
        t, low = k
        lo, hi = self.rng(t.args[0])
        return (None if lo is None else lo >> low, None if hi is None else hi >> low)

    def find_range(self, t):
        tab = t.args[0]
        x = t.args[1]
        if isinstance(tab, str):
            tab = tab.encode("latin-1", "replace")
        bits = ibits(x) if isinstance(x, (SI, int)) else None
        if bits is not None and 0 < len(bits) <= 8:
            vs = self.values((0,) * (8 - len(bits)) + tuple(bits))
            if vs:
                ps = [tab.find(v) for v in vs if v in tab]
                if ps:
                    return ((min(ps), max(ps)),)
        return ((0, len(tab) - 1),)

    def rng(self, v):
        """(lo, hi) of an integer value"""
        if isinstance(v, int):
            return int(v), int(v)
        ivs = self.ivs(v)
        return iv_lo(ivs), iv_hi(ivs)

    @staticmethod
    def split(v):
        """v = sign * key + const, key canonical"""
        d = poly(v)
        c = d.pop((), 0)
        items = sorted(d.items(), key=lambda x: tuple(t.id for t in x[0]))
        sign = 1 if items[0][1] > 0 else -1
        key = tuple((m, k * sign) for m, k in items)
        return sign, key, c

    def key_ivs(self, key):
        if len(key) == 1 and len(key[0][0]) == 1 and key[0][1] == 1:
            r = self.atom_range(key[0][0][0])
        else:
            lo, hi = 0, 0
            for m, c in key:
                l, h = 1, 1
                for t in m:
                    a = self.atom_range(t)
                    al, ah = (iv_lo(a), iv_hi(a)) if a else (None, None)
                    if l is None or h is None or al is None or l < 0 or al < 0:
                        l, h = None, None
                    else:
                        l, h = l * al, (None if h is None or ah is None else h * ah)
                if h is None and l is not None and c > 0:
                    cl, ch = l * c, None
                elif l is None or h is None:
                    cl, ch = None, None
                    if l is not None and c < 0:
                        ch = l * c
                elif c > 0:
                    cl, ch = l * c, h * c
                else:
                    cl, ch = h * c, l * c
                lo = None if lo is None or cl is None else lo + cl
                hi = None if hi is None or ch is None else hi + ch
            r = ((lo, hi),)
        s = self.iv.get(key)
        if s is not None:
            r = iv_and(r, s)
        return r

    def ivs(self, v):
        if isinstance(v, int):
            return ((int(v), int(v)),)
        sign, key, c = self.split(v)
        r = self.key_ivs(key)
        if not r:
            return ((None, None),)
        if sign == 1:
            return tuple((None if l is None else l + c, None if h is None else h + c) for l, h in r)
        return tuple((None if h is None else c - h, None if l is None else c - l) for l, h in reversed(r))

    def set_iv(self, key, ivs):
        cur = self.key_ivs(key)
        new = iv_and(cur, ivs)
        if not new:
            raise Infeasible
        self.iv[key] = new
        if len(key) == 1 and len(key[0][0]) == 1 and key[0][1] == 1:
            t = key[0][0][0]
            bits = t.args[0].bits if t.kind == "ubits" else (tbits(t) if t.size is not None else None)
            if bits is not None:
                nb = self.nbits(bits)
                if len(nb) <= 8 and self.byte_var(nb) is not None:
                    self.filter_byte(bits, lambda x: any(
                        (l is None or l <= x) and (h is None or x <= h) for l, h in new))
                elif len(new) == 1 and new[0][0] is not None and new[0][0] == new[0][1]:
                    v = new[0][0]
                    for j, b in enumerate(reversed(bits)):
                        self.pin(b, (v >> j) & 1)
                elif new[-1][1] is not None:
                    # leading zeros
                    n = max(new[-1][1].bit_length(), 0)
                    for b in bits[:max(0, len(bits) - n)]:
                        self.pin(b, 0)

    def whole_const(self, diffs):
        """(key, c) when "all these differences are 0" says that a whole byte
        term (or bit-vector integer) equals the constant c"""
        ts = set()
        for d in diffs:
            for a in bset(d):
                if a:
                    ts.add(atom(a))
            break
        for t, p in ts:
            cands = []
            if t.size is not None:
                cands.append((t, tbits(t)))
            for key in self.iv:
                if len(key) == 1 and len(key[0][0]) == 1 and key[0][1] == 1 and key[0][0][0].kind == "ubits":
                    cands.append((key[0][0][0], key[0][0][0].args[0].bits))
            for u, bits in cands:
                if len(bits) < len(diffs):
                    continue
                c = 0
                used = set()
                for b in bits:
                    n = self.nbit(b)
                    if n <= 1:
                        c = c << 1 | n
                    elif n in diffs:
                        c = c << 1
                        used.add(n)
                    elif bxor(n, 1) in diffs:
                        c = c << 1 | 1
                        used.add(bxor(n, 1))
                    else:
                        break
                else:
                    if used == set(diffs):
                        return (((u,), 1),), c
        return None

    # ------------------------------------------------------------ literals
    def assume(self, lit, val):
        k = lit[0]
        if k == "eqbits":
            diffs = lit[1]
            if val:
                for d in diffs:
                    self.pin(d, 0)
            else:
                nz = tuple(x for x in (self.nbit(d) for d in diffs) if x)
                if not nz:
                    raise Infeasible
                if 1 not in nz:
                    if len(set(nz)) == 1:
                        self.pin(nz[0], 1)
                    else:
                        bv = self.byte_var(nz)
                        if bv is not None:
                            self.filter_byte(diffs, lambda x: x != 0)
                        else:
                            self.neq = self.neq + (tuple(diffs),)
                            w = self.whole_const(frozenset(nz))
                            if w is not None:
                                self.set_iv(w[0], ((None, w[1] - 1), (w[1] + 1, None)))
        elif k == "rng":
            key, ivs = lit[1], lit[2]
            self.set_iv(key, ivs if val else iv_not(ivs))
        elif k == "in":
            bits, vals = lit[1], lit[2]
            self.filter_byte(bits, (lambda x: x in vals) if val else (lambda x: x not in vals))
        elif k == "flag":
            cur = self.flag.get(lit[1])
            if cur is not None and cur != val:
                raise Infeasible
            self.flag[lit[1]] = val
        elif k == "choice":
            # ("choice", key, alternative): alternatives exclude each other
            cur = self.flag.get(lit[1])
            if isinstance(cur, tuple) and cur[0] == "is":
                if (cur[1] == lit[2]) != val:
                    raise Infeasible
            else:
                excl = cur[1] if cur else frozenset()
                if val:
                    if lit[2] in excl:
                        raise Infeasible
                    self.flag[lit[1]] = ("is", lit[2])
                else:
                    self.flag[lit[1]] = ("not", excl | {lit[2]})
        else:
            raise AssertionError(lit)
        self.check()

    def check(self):
        for diffs in self.neq:
            if all(self.nbit(d) == 0 for d in diffs):
                raise Infeasible
        for key in list(self.iv):
            if not self.key_ivs(key):
                raise Infeasible

    def evaluate(self, lit):
        k = lit[0]
        if k == "eqbits":
            nz = set()
            for d in lit[1]:
                n = self.nbit(d)
                if n == 1:
                    return False
                if n:
                    nz.add(n)
            if not nz:
                return True
            for diffs in self.neq:
                s = {x for x in (self.nbit(d) for d in diffs) if x}
                if s and s <= nz:
                    return False
            nzl = tuple(sorted(nz))
            bv = self.byte_var(nzl)
            if bv is not None:
                vals = self.values(nzl)
                if vals is not None:
                    if 0 not in vals:
                        return False
                    if vals == {0}:
                        return True
            # bounds of whole integers
            w = self.whole_const(nz)
            if w is not None:
                if not iv_and(self.key_ivs(w[0]), ((w[1], w[1]),)):
                    return False
            return None
        if k == "rng":
            cur = self.key_ivs(lit[1])
            t = iv_and(cur, lit[2])
            if not t:
                return False
            if not iv_and(cur, iv_not(lit[2])):
                return True
            return None
        if k == "in":
            vals = self.values(lit[1])
            if vals is None:
                return None
            if vals <= lit[2]:
                return True
            if not (vals & lit[2]):
                return False
            return None
        if k == "flag":
            return self.flag.get(lit[1])
        if k == "choice":
            cur = self.flag.get(lit[1])
            if cur is None:
                return None
            if cur[0] == "is":
                return cur[1] == lit[2]
            return False if lit[2] in cur[1] else None
        raise AssertionError(lit)


def build(lits):
    s = Store()
    for lit, val in lits:
        s.assume(lit, val)
    return s


def sized(v, store):
    """bytes of unknown length, with the lengths the path has fixed"""
    out = None
    for i, p in enumerate(v.parts):
        if isinstance(p, Term) and p.size is None:
            t = _t.T("len", p)
            if (((t,), 1),) not in store.iv:
                continue
            lo, hi = store.rng(_t.iatom(t))
            if lo == hi and lo is not None and lo <= 4096:
                out = out or list(v.parts)
                out[i] = _t.tbytes(_t.T(p.kind, *p.args, size=lo)) if lo else b""
    return v if out is None else _t.bcat(*out)
