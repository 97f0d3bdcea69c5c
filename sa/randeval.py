"""Random interpretation of value graphs (after Gulwani & Necula): two value
numbers whose normal forms differ are told apart by interpreting both under the
same random assignment of the inputs that satisfies the facts of the path.
Hash functions, ciphers and points are interpreted as free functions.  Only
terms are interpreted here; code of the repository is never run."""
import hashlib
import importlib
import random
import re
import unicodedata

import terms as _t
from terms import *


class Inconclusive(Exception):
    pass


def H(n, *xs):
    return hashlib.shake_256(repr(xs).encode("utf-8", "surrogatepass")).digest(n)


POOL = ["Satoshi", " lead", "trail ", "\ttab\n", "e\u0301x", "\u00e9x", "\ufb01n", "\u212b", "A\u030a", "UPPER", "lower",
        "a" * 90 + "Z", "a b c", "x\x00y", "\U0001f600k", "\u0130i", "\u00df", "\u03d2\u0301\u0000\U00010400\U0001f4a9",
        "0", "00", "abcdef", "\u200bzw", "\u2168", "1/2 \u00bd", "p\u0323\u0307", " ", "\n", "A", "TestingOneTwoThree",
        "\u3000wide\u3000", "'quote\"", "x" * 200, "\ud55c", "\u1112\u1161\u11ab", "none", "None", "MoLeN"]


def root(x):
    """the even-or-odd y of the curve point with this x, if there is one"""
    x = int.from_bytes(x, "big") % P
    y2 = (pow(x, 3, P) + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    return y if y * y % P == y2 else None


class Env:
    def __init__(self, store, rnd, variant=0):
        self.store = store
        self.rnd = rnd
        self.variant = variant
        self.base = {}
        self.memo = {}
        self.bmemo = {}
        self.busy = set()

    # ------------------------------------------------------------ assignments
    def raw(self, t):
        """random content of a free byte term"""
        v = self.base.get(t.id)
        if v is None:
            r = self.rnd
            if t.kind in ("in", "dec", "decbad", "urandom", "weak"):
                b = bytearray(r.randbytes(t.size))
                if self.variant % 3 == 1 and t.size:
                    for i in range(r.randrange(t.size + 1)):
                        b[i] = 0
                elif self.variant % 3 == 2:
                    for i in range(len(b)):
                        if r.random() < .3:
                            b[i] = r.choice((0, 1, 255, 128, 0x20))
                for i in range(len(b)):
                    d = self.store.dom.get((t.id, i))
                    if d is not None:
                        b[i] = r.choice([x for x in range(256) if d >> x & 1])
                iv = self.store.iv.get((((t,), 1),))
                if iv:
                    n = self.pick(iv, 8 * t.size)
                    b = n.to_bytes(t.size, "big")
                v = bytes(b)
            else:
                v = self.free(t)
            self.base[t.id] = v
        return v

    def pick(self, iv, nbits):
        l, h = self.rnd.choice(iv)
        l = 0 if l is None else l
        h = max(l, (1 << nbits) - 1) if h is None else h
        q = self.rnd.random()
        if q < .1:
            return l
        if q < .2:
            return h
        return self.rnd.randint(l, h)

    def free(self, t):
        """value of a byte operator application"""
        k, a = t.kind, t.args
        if k == "sha256":
            return hashlib.sha256(self.ev(a[0])).digest()
        if k in ("ripemd160", "sha512", "sha1", "md5", "scrypt"):
            return H(t.size or 64, k, *[self.ev(x) for x in a])
        if k in ("aesenc", "aesdec"):
            return feistel(self.ev(a[0]), self.ev(a[1]), k == "aesdec")
        if k in ("ecx", "ecy"):
            return self.coord(self.ev(a[0]), k)
        if k == "tabbyte":
            return bytes([a[0][self.ev(a[1])]])
        raise Inconclusive(k)

    def coord(self, pt, k):
        base, s = pt
        if s == 0:
            raise Inconclusive("infinity")
        m = min(s, N - s)
        if isinstance(base, tuple) and base and base[0] == "comp" and m == 1:
            if k == "ecx":
                return base[1]
            y = root(base[1])
            if y is None:
                raise Inconclusive("no such point")
            if y & 1 != base[2] ^ (s != m):
                y = P - y
            return y.to_bytes(32, "big")
        if k == "ecx":
            return H(32, "x", base, m)
        y = int.from_bytes(H(32, "y", base, m), "big") % P
        if s != m:
            y = P - y
        return y.to_bytes(32, "big")

    # ------------------------------------------------------------ bits
    def atomval(self, a):
        t, p = atom(a)
        # computed quantities are computed, never assigned
        e = self.store.subst.get(a) if p >= 0 and t.kind not in ("and", "prod") else None
        if e is not None and a not in self.busy:      # (facts may be cyclic: x = h(x))
            self.busy.add(a)
            try:
                return self.bit(e)
            finally:
                self.busy.discard(a)
        if p >= 0:
            if t.kind in ("and", "prod"):
                return self.ev(t)
            v = self.raw(t)
            return v[p // 8] >> (7 - p % 8) & 1
        v = self.ev(t)
        if not isinstance(v, int) or v < 0:
            raise Inconclusive("bits of a negative number")
        return v >> (-p - 1) & 1

    def bit(self, b):
        if b <= 1:
            return b
        r = self.bmemo.get(b)
        if r is None:
            r = 0
            for a in bset(b):
                r ^= 1 if a == 0 else self.atomval(a)
            self.bmemo[b] = r
        return r

    def bits_int(self, bits):
        v = 0
        for b in bits:
            v = v << 1 | self.bit(b)
        return v

    # ------------------------------------------------------------ values
    def ev(self, v):
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return v
        if isinstance(v, BV):
            return self.bits_int(v.bits).to_bytes(len(v), "big")
        if isinstance(v, BitTuple):
            return self.bits_int(v.bits)
        if isinstance(v, BitE):
            return self.bit(v.b)
        if isinstance(v, VB):
            return b"".join(self.ev(p) for p in v.parts)
        if isinstance(v, SS):
            return "".join(self.ev(p) for p in v.parts)
        if isinstance(v, SI):
            r = 0
            for m, c in v.poly:
                x = c
                for t in m:
                    x *= self.num(t)
                r += x
            return r
        if isinstance(v, Tup):
            return tuple(self.ev(x) for x in v.items)
        if isinstance(v, tuple):
            return tuple(self.ev(x) for x in v)
        if isinstance(v, Term):
            if v.id not in self.memo:
                self.memo[v.id] = self.term(v)
            return self.memo[v.id]
        raise Inconclusive(type(v).__name__)

    def num(self, t):
        x = self.ev(t)
        if isinstance(x, bytes):
            return int.from_bytes(x, "big")
        if not isinstance(x, int):
            raise Inconclusive("not a number")
        return x

    def term(self, t):
        k, a = t.kind, t.args
        if t.size is not None:
            return self.bits_int(tbits(t)).to_bytes(t.size, "big")
        if k == "in":
            for key in (("choice", t),):
                pass
            cur = self.store.flag.get(t)
            if isinstance(cur, tuple) and cur[0] == "is" and isinstance(cur[1], (str, bytes)):
                return cur[1]
            iv = self.store.iv.get((((t,), 1),))
            if a[0] in INTNAMES:
                return self.pick(iv or ((-2 ** 40, 2 ** 40),), 64)
            r = self.rnd
            for f, val in self.store.flag.items():
                if isinstance(f, tuple) and f[0] == "isint" and val is True and getattr(f[1], "parts", None) == (t,):
                    n = T("strint", f[1], f[2])
                    return str(self.pick(self.store.iv.get((((n,), 1),)) or ((1, 1 << 20),), 64))
            s = r.choice(POOL)
            if r.random() < .3:
                s += r.choice(POOL)
            return s
        if k == "ubits":
            return self.ev(a[0])
        if k == "polyint":
            return self.ev(a[0])
        if k == "int":
            iv = self.store.iv.get((((t,), 1),))
            return self.pick(iv or ((0, 1 << 64),), 64)
        if k == "mod":
            return self.ev(a[0]) % self.ev(a[1])
        if k == "div":
            return self.ev(a[0]) // self.ev(a[1])
        if k == "and":
            return self.bit(a[0].b) & self.bit(a[1].b)
        if k == "prod":
            r = 1
            for b in a[0].bits:
                r &= self.bit(b)
            return r
        if k == "find":
            x = self.ev(a[1])
            tab = a[0]
            if isinstance(tab, str):
                tab = tab.encode()
            if isinstance(x, int):
                x = bytes([x])
            if isinstance(x, str):
                x = x.encode()
            return tab.find(x)
        if k == "bitlen":
            return self.num_of(a[0]).bit_length()
        if k == "len" or k == "strlen":
            return len(self.ev(a[0]))
        if k == "strint":
            try:
                return int(self.ev(a[0])) if a[1] is None else int(self.ev(a[0]), a[1])
            except (ValueError, TypeError):
                raise Inconclusive("strint")
        if k == "tabch":
            i = self.ev(a[1])
            if not 0 <= i < len(a[0]):
                raise Inconclusive("index")
            return a[0][i]
        if k == "ch":
            return self.ev(a[0]).decode("latin-1")
        if k == "hex":
            return self.ev(a[0]).hex()
        if k == "hexint":
            return "%x" % self.ev(a[0])
        if k == "binint":
            return "{:b}".format(self.ev(a[0]))
        if k == "unhex":
            try:
                return bytes.fromhex(self.ev(a[0]))
            except ValueError:
                raise Inconclusive("unhex")
        if k == "b58":
            return b58text(a[0], self.ev(a[1]))
        if k == "normalize":
            return unicodedata.normalize(self.ev(a[0]), self.ev(a[1]))
        if k == "utf8":
            return self.ev(a[0]).encode("utf-8", "surrogatepass")
        if k == "decodeutf8":
            return self.ev(a[0]).decode("utf-8", "surrogateescape")
        if k == "decodelatin":
            return self.ev(a[0]).decode("latin-1")
        if k == "encode":
            try:
                return self.ev(a[2]).encode(a[0], a[1])
            except (UnicodeError, LookupError, TypeError):
                raise Inconclusive("encode")
        if k == "bslice" or k == "strslice":
            o = self.ev(a[0])
            args = [self.ev(x) if isinstance(x, (int, SI)) and not isinstance(x, bool) else x for x in a[1:]]
            idx = []
            for x in args:
                if isinstance(x, str):
                    if x not in ("end", "none", "None"):
                        raise Inconclusive("slice")
                    x = None
                idx.append(x)
            return o[slice(*idx)]
        if k == "strcall":
            name, o = a[0], self.ev(a[1])
            args = [self.parts(x) if isinstance(x, Unk) else dict(x[1:]) if isinstance(x, tuple) and x[:1] == ("dict",)
                    else self.ev(x) for x in a[2:]]
            if any(isinstance(x, str) and x.startswith("?") for x in a[2:]):
                raise Inconclusive("argument")
            try:
                r = getattr(o, name)(*[ast_arg(x) for x in args])
            except Exception:
                raise Inconclusive("strcall")
            if not isinstance(r, str):
                raise Inconclusive("strcall")
            return r
        if k == "strfn":
            m, _, f = a[0].rpartition(".")
            return getattr(importlib.import_module(m), f)(self.ev(a[1]))
        if k == "resub":
            return re.compile(a[0], a[1]).sub(a[2], self.ev(a[4]), a[3])
        if k == "stritem":
            return self.parts(Unk(a[0]))[a[1]]
        if k == "strnum":
            o = self.ev(a[1])
            try:
                return getattr(o, a[0])(*[self.ev(x) for x in a[2:]])
            except Exception:
                raise Inconclusive("strnum")
        if k == "ecpt":
            base = self.pbase(a[0])
            s = 0
            for m, c in a[1]:
                x = c
                for q in m:
                    x *= self.num(q)
                s += x
            b, k0 = base
            return (b, s * k0 % N)
        raise Inconclusive(k)

    def parts(self, v):
        """the list a splitting method gives"""
        t = v.why
        if not isinstance(t, Term) or t.kind != "strparts" or \
                any(isinstance(x, str) and x.startswith("?") for x in t.args[2:]):
            raise Inconclusive("parts")
        try:
            return list(getattr(self.ev(t.args[1]), t.args[0])(*[ast_arg(x) for x in t.args[2:]]))
        except (TypeError, ValueError, AttributeError):
            raise Inconclusive("parts")

    def num_of(self, v):
        x = self.ev(v)
        return int.from_bytes(x, "big") if isinstance(x, bytes) else x

    def pbase(self, b):
        if b == "G":
            return ("G", 1)
        if isinstance(b, Term) and b.kind == "ecbase":
            if b.args[0] == "comp":
                return (("comp", self.ev(b.args[1]), self.ev(b.args[2])), 1)
            raise Inconclusive("parsed point")
        if isinstance(b, Term) and b.kind == "ecsum":
            x, y = self.ev(b.args[0]), self.ev(b.args[1])
            if x[0] == y[0]:
                return (x[0], (x[1] + y[1]) % N)
            return (("sum",) + tuple(sorted((x, y), key=repr)), 1)
        raise Inconclusive("point")

    # ------------------------------------------------------------ facts
    def holds(self, lit, val):
        k = lit[0]
        if k == "eqbits":
            return all(self.bit(d) == 0 for d in lit[1]) == val
        if k == "rng":
            v = self.ev(SI(lit[1]))
            return any((l is None or l <= v) and (h is None or v <= h) for l, h in lit[2]) == val
        if k == "in":
            return (self.bits_int(lit[1]) in lit[2]) == val
        if k == "flag":
            f = lit[1]
            if f[0] == "streq":
                p, q = termbyid(f[1]), termbyid(f[2])
                return (self.ev(p) == self.ev(q)) == val
            if f[0] == "has":
                return (f[2] in self.ev(termbyid(f[1]))) == val
            if f[0] == "substr":
                return (self.ev(termbyid(f[2])) in f[1]) == val
            if f[0] == "strpred":
                s = self.ev(f[2])
                try:
                    r = getattr(s, f[1])(*[self.ev(x) for x in f[3:]])
                except (TypeError, AttributeError):
                    raise Inconclusive("strpred")
                return bool(r) == val
            if f[0] == "isascii":
                return self.ev(f[1]).isascii() == val
            if f[0] == "islatin":
                return all(ord(c) < 256 for c in self.ev(f[1])) == val
            if f[0] == "longer":
                raise Inconclusive("longer")
            if f[0] == "isint":
                try:
                    int(self.ev(f[1]), 10 if f[2] is None else f[2])
                    return val
                except ValueError:
                    return not val
            if f[0] in ("b58valid", "available", "envset"):
                return True
            if f[0] == "hasroot":
                return (root(self.ev(f[1])) is not None) == val
            raise Inconclusive(f[0])
        if k == "choice":
            if isinstance(lit[1], Term):
                return (self.ev(lit[1]) == lit[2]) == val
            return True
        raise Inconclusive(k)


def ast_arg(x):
    if isinstance(x, str) and x == "None":
        return None
    return x


INTNAMES = ("lot", "sequence", "scalar", "scalar2", "x", "y", "number")


def termbyid(i):
    return _t._bykey[i]


def feistel(key, x, inv):
    l, r = x[:8], x[8:]
    if not inv:
        for i in range(4):
            l, r = r, bytes(p ^ q for p, q in zip(l, H(8, "aes", key, i, r)))
    else:
        for i in reversed(range(4)):
            l, r = bytes(p ^ q for p, q in zip(r, H(8, "aes", key, i, l))), l
    return l + r


def b58text(alpha, data):
    v = int.from_bytes(data, "big")
    s = ""
    while v:
        v, m = divmod(v, 58)
        s = alpha[m] + s
    return alpha[0] * (len(data) - len(data.lstrip(b"\0"))) + s


def samples(st, want, tries):
    """assignments that satisfy every fact of the path"""
    n = 0
    for i in range(tries):
        env = Env(st.store, random.Random(1000 + i), i)
        try:
            if all(env.holds(lit, val) for lit, val in st.lits):
                yield env
                n += 1
                if n >= want:
                    return
        except Inconclusive:
            raise
        except (RecursionError, ArithmeticError, UnicodeError):
            continue


def compare(st, v, w, want=6, tries=80):
    """True: a satisfying assignment tells them apart; False: none of the
    satisfying assignments does; None: no satisfying assignment found"""
    n = 0
    try:
        for env in samples(st, want, tries):
            a, b = env.ev(v), env.ev(w)
            if a != b or type(a) is not type(b):
                return True
            n += 1
    except (Inconclusive, RecursionError, UnicodeError, OverflowError):
        return None
    return False if n >= want else None


def misread(st, text, src, alpha, n):
    """a text whose characters are not those of src, the text that is decoded in
    its place: (text, decoded instead), or None"""
    for i in range(24):
        rnd = random.Random(i)
        good = b58text(alpha, (bytes([1, 0x42 + i % 2]) + rnd.randbytes(max(n - 2, 0)))[:n])
        k = rnd.randrange(len(good) + 1)
        tries = [good[:j] + c + good[j:] for c in " \n\t-_.0OIl/\u00a0\u00e9\u200b\x00" for j in (0, k, len(good))]
        tries += [good, good.swapcase(), good.upper(), good.lower(), good.replace("o", "0"), good.replace("1", "l"),
                  good.replace("i", "I"), good + good[-1], good[0] + good, good + "=", "'" + good + "'",
                  "bitcoin:" + good]
        for s in tries:
            env = Env(st.store, rnd, i)
            env.memo[text.parts[0].id] = s
            try:
                if not all(env.holds(lit, val) for lit, val in st.lits
                           if lit[0] == "flag" and lit[1][0] in ("strpred", "has", "substr", "streq", "isascii")):
                    continue
                r = env.ev(src)
            except (Inconclusive, RecursionError, UnicodeError, TypeError):
                continue
            if isinstance(r, str) and r != s and r and set(r) <= set(alpha):
                return s, r
    return None


def satisfiable(st, tries=80):
    """True: an assignment satisfying the path facts was found"""
    try:
        for env in samples(st, 1, tries):
            return True
    except (Inconclusive, RecursionError, UnicodeError, OverflowError):
        pass
    return None


def reaches(st, v, value, tries=300):
    """True: a satisfying assignment on which v is the given value was found"""
    try:
        for env in samples(st, 60, tries):
            if env.ev(v) == value:
                return True
    except (Inconclusive, RecursionError, UnicodeError, OverflowError):
        pass
    return None
