"""Transfer functions of Python's builtin types and functions over the
abstract values of terms.py."""
import builtins as _pyb

from terms import *
from terms import SI as _SI
from core import *
from store import iv_not, iv_lo, iv_hi, sized
import words
from ext_models import ExtModels

PYTYPES = {"int": int, "str": str, "bytes": bytes, "bool": bool, "float": float, "tuple": tuple, "list": list,
           "dict": dict, "set": set, "frozenset": frozenset, "bytearray": bytearray, "type": type,
           "NoneType": type(None), "object": object, "complex": complex, "memoryview": memoryview, "range": range}

OPNAMES = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
           "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
           "MatMult": "matmul"}

CONST = (int, str, bytes, float, bool, type(None))
SAFE_STR = {n for n in dir(str) if not n.startswith("_")}
SAFE_BYTES = {n for n in dir(bytes) if not n.startswith("_")}


def isint(v):
    return isinstance(v, (int, SI))


def isconst(v):
    return v is None or isinstance(v, (int, str, bytes, float, bool))


def deepconst(v):
    """python object of a constant value, or raises TypeError"""
    if isconst(v):
        return v
    if isinstance(v, Tup):
        return tuple(deepconst(x) for x in v.items)
    raise TypeError


def plain_key(k):
    """equal exactly when it is the same value"""
    if isinstance(k, Tup):
        return all(plain_key(x) for x in k.items)
    return isconst(k) or isinstance(k, (Ref, Ext))


class Models(ExtModels):
    def init_models(self):
        names = {}
        for n in dir(_pyb):
            if not n.startswith("__") or n in ("__import__", "__build_class__"):
                names[n] = Ext(n)
        names.update({"None": None, "True": True, "False": False, "__debug__": True,
                      "Ellipsis": Ext("Ellipsis"), "NotImplemented": Ext("NotImplemented")})
        self.builtin_names = names
        self.init_ext()

    # ------------------------------------------------------------ helpers
    def undecided(self, st, why, node=None, cx=None, v=None):
        st.mark(f"{why} at {self.where(node, cx)}" if cx is not None and node is not None else why)
        return Unk(why, taint(v) if v is not None else frozenset())

    def fork_unknown(self, st, why, cx, node):
        st.mark(f"{why} at {self.where(node, cx)}")
        a = st.fork()
        return [(st, True), (a, False)]

    def unwrap(self, v, st):
        """bytearray object -> its bytes"""
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, BAObj):
                v = o.data
        if isinstance(v, VB):
            return sized(v, st.store)
        return v

    def pytype(self, v, st):
        """name of the builtin type, or the class reference"""
        if v is None:
            return "NoneType"
        if isinstance(v, bool):
            return "bool"
        if isint(v) or words.isw(v):
            return "int"
        if isstr(v):
            return "str"
        if isbytes(v):
            return "bytes"
        if isinstance(v, float):
            return "float"
        if isinstance(v, Tup):
            return v.cls if v.cls is not None else "tuple"
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, LObj):
                return "list"
            if isinstance(o, DObj):
                return "dict"
            if isinstance(o, SetObj):
                return "frozenset" if o.frozen else "set"
            if isinstance(o, BAObj):
                return "bytearray"
            if isinstance(o, Inst):
                return o.cls
            if isinstance(o, Cls):
                return "type"
            if isinstance(o, HashObj):
                return "hashlib.HASH"
            if isinstance(o, IterObj):
                return "generator"
            if isinstance(o, Mod):
                return "module"
        if isinstance(v, Func):
            return "function"
        if isinstance(v, XO):
            return {"sk": "ecdsa.keys.SigningKey", "vk": "ecdsa.keys.VerifyingKey",
                    "jac": "ecdsa.ellipticcurve.PointJacobi", "rawpt": "ecdsa.ellipticcurve.PointJacobi",
                    "aff": "ecdsa.ellipticcurve.Point", "range": "range", "bm": "method",
                    "memoryview": "memoryview"}.get(v.kind, v.kind)
        return None

    # lengths -----------------------------------------------------------
    def length(self, v, st):
        """int value or None"""
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, BV):
            return len(v)
        if isinstance(v, Tup):
            return len(v.items)
        if isinstance(v, VB):
            n = 0
            for p in v.parts:
                if isinstance(p, Term):
                    if p.kind == "utf8":
                        s = p.args[0]
                        k = strterm_len(s) if isinstance(s, Term) else None
                        if k is not None and s.kind == "hex":
                            n = iadd(n, k)
                            continue
                        if isinstance(s, Term) and s.kind == "b58":
                            n = iadd(n, k if k is not None else iatom(T("strlen", s)))
                            continue
                    n = iadd(n, iatom(T("len", p)))
                else:
                    n = iadd(n, len(p))
            return n
        if isinstance(v, SS):
            n = 0
            for p in v.parts:
                if isinstance(p, str):
                    n = iadd(n, len(p))
                else:
                    k = strterm_len(p)
                    n = iadd(n, k if k is not None else iatom(T("strlen", p)))
            return n
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, (LObj, DObj, SetObj)):
                return len(o.items)
            if isinstance(o, BAObj):
                return self.length(o.data, st)
        if isinstance(v, XO) and v.kind == "range":
            return len(range(*v.args))
        return None

    # ------------------------------------------------------------ truth
    def truth(self, v, st, cx, node):
        if words.isw(v):
            return self.fork_unknown(st, "truth of a word", cx, node)
        if isconst(v):
            return [(st, bool(v))]
        if isinstance(v, BV):
            return [(st, True)]
        if isinstance(v, SI):
            return [(y, not b) for y, b in self.equal(v, 0, st, cx, node)]
        if isinstance(v, SS):
            t = sterm(v)
            for p in v.parts:
                if isinstance(p, str) or (strterm_len(p) or 0) > 0 or p.kind in ("b58", "hexint"):
                    return [(st, True)]
            return [(y, not b) for y, b in self.equal(v, "", st, cx, node)]
        if isinstance(v, VB):
            for p in v.parts:
                if not isinstance(p, Term):
                    return [(st, True)]
            return [(y, not b) for y, b in self.equal(v, b"", st, cx, node)]
        if isinstance(v, Tup):
            return [(st, len(v.items) > 0)]
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, BAObj):
                return self.truth(o.data, st, cx, node)
            n = self.length(v, st)
            if n is not None:
                return [(st, n > 0)]
            if isinstance(o, Inst):
                m = self.find_attr(st, o.cls, "__bool__")
                if m is not None:
                    return [(z, b) for y, r in self.call(m, [v], {}, st, cx, node)
                            for z, b in self.truth(r, y, cx, node)]
                m = self.find_attr(st, o.cls, "__len__")
                if m is not None:
                    return [(z, b) for y, r in self.call(m, [v], {}, st, cx, node)
                            for z, b in self.truth(r, y, cx, node)]
            return [(st, True)]
        if isinstance(v, XO) and v.kind == "range":
            return [(st, len(range(*v.args)) > 0)]
        if isinstance(v, XO) and v.kind == "notimplemented":
            return [(st, True)]
        if isinstance(v, Unk):
            return self.fork_unknown(st, f"branch on {v.why}", cx, node)
        return [(st, True)]

    # ------------------------------------------------------------ equality
    def eqbits(self, x, y, st):
        diffs = tuple(sorted({bxor(p, q) for p, q in zip(x, y)} - {0}))
        if not diffs:
            return [(st, True)]
        if 1 in diffs:
            return [(st, False)]
        return st.branch(("eqbits", diffs))

    def equal(self, a, b, st, cx, node):
        if words.isw(a) or words.isw(b):
            return [(st, True)] if a == b else self.fork_unknown(st, "equality of words", cx, node)
        a, b = self.unwrap(a, st), self.unwrap(b, st)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.fork_unknown(st, f"comparison with {(a if isinstance(a, Unk) else b).why}", cx, node)
        if isconst(a) and isconst(b):
            return [(st, a == b)]
        if type(a) is type(b) and a == b:
            return [(st, True)]
        if isint(a) and isint(b):
            return self.int_equal(a, b, st, cx, node)
        if isbytes(a) and isbytes(b):
            if fixed(a) and fixed(b):
                if len(a) != len(b):
                    return [(st, False)]
                return self.eqbits(vbits(a), vbits(b), st)
            return self.vb_equal(a, b, st, cx, node)
        if isstr(a) and isstr(b):
            return self.str_equal(a, b, st, cx, node)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_equal(a.items, b.items, st, cx, node)
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.get(a), st.get(b)
            if a == b:
                return [(st, True)]
            if isinstance(x, LObj) and isinstance(y, LObj):
                return self.seq_equal(x.items, y.items, st, cx, node)
            if isinstance(x, SetObj) and isinstance(y, SetObj):
                if all(isconst(i) for i in x.items + y.items):
                    return [(st, set(x.items) == set(y.items))]
                return self.fork_unknown(st, "set comparison", cx, node)
            if isinstance(x, DObj) and isinstance(y, DObj):
                dx, dy = dict(x.items), dict(y.items)
                if set(dx) != set(dy):
                    return [(st, False)]
                return self.seq_equal([dx[k] for k in dx], [dy[k] for k in dx], st, cx, node)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Ref) and isinstance(st.get(p), Inst):
                m = self.find_attr(st, st.get(p).cls, "__eq__")
                if m is not None:
                    return [(z, t) for y, r in self.call(m, [p, q], {}, st, cx, node)
                            for z, t in self.truth(r, y, cx, node)]
                if "dataclass" in (st.get(st.get(p).cls).flags if isinstance(st.get(p).cls, Ref) else ()):
                    if isinstance(q, Ref) and isinstance(st.get(q), Inst) and st.get(q).cls == st.get(p).cls:
                        x, y = st.get(p).attrs, st.get(q).attrs
                        return self.seq_equal(list(x.values()), [y[k] for k in x], st, cx, node)
        if isinstance(a, XO) and isinstance(b, XO) and a.kind in ("jac", "aff", "inf", "vk") and \
                b.kind in ("jac", "aff", "inf", "vk"):
            return self.fork_unknown(st, "comparison of points", cx, node)
        return [(st, False)]

    def seq_equal(self, xs, ys, st, cx, node):
        if len(xs) != len(ys):
            return [(st, False)]
        out = []
        cur = [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for z, b in self.equal(x, y, s, cx, node):
                    if b:
                        nxt.append(z)
                    else:
                        out.append((z, False))
            cur = nxt
        return out + [(s, True) for s in cur]

    def int_equal(self, a, b, st, cx, node):
        if isconst(a):
            a, b = b, a
        x, y = ibits(a), ibits(b)
        if isconst(b):
            if b < 0:
                return [(st, False)] if x is not None else self.rng_lit(st, isub(a, b), ((0, 0),))
            if x is not None:
                if len(x) < int(b).bit_length():
                    return [(st, False)]
                if len(x) <= 8:
                    vs = st.store.values(x)
                    if vs is not None:
                        nb = st.store.nbits(x)
                        if st.store.byte_var(nb) is None:
                            return [(st, b in vs)]
                        return st.branch(("in", tuple(x), frozenset([int(b)])))
                hd = self.head_bits(x, st)
                if hd is not None:
                    u, k = hd
                    return self.rng_lit(st, iatom(u), ((b << k, ((b + 1) << k) - 1),))
                if len(x) <= 64:
                    p, q = self._padbits(x, y)
                    return self.eqbits(p, q, st)
            return self.rng_lit(st, isub(a, b), ((0, 0),))
        if x is not None and y is not None:
            p, q = self._padbits(x, y)
            return self.eqbits(p, q, st)
        x, y = self.bits_of(a, st), self.bits_of(b, st)
        if x is not None and y is not None:
            p, q = self._padbits(x, y)
            return self.eqbits(p, q, st)
        return self.rng_lit(st, isub(a, b), ((0, 0),))

    @staticmethod
    def head_bits(bits, st):
        """(t, k) when the bits are those of the integer t shifted right by k"""
        t = None
        for i, b in enumerate(bits):
            s = bset(b)
            if len(s) != 1:
                return None
            (a,) = s
            u, pos = atom(a) if a else (None, 0)
            if u is None or u.kind not in ("polyint", "div"):
                return None
            if t is None:
                t, first = u, pos
                hi = st.store.rng(iatom(t))[1]
                if first >= 0 or hi is None or hi.bit_length() > -first:
                    return None
            elif u is not t or pos != first + i:
                return None
        return (t, -(first + len(bits))) if t is not None else None

    @staticmethod
    def _padbits(x, y):
        n = max(len(x), len(y))
        return (0,) * (n - len(x)) + tuple(x), (0,) * (n - len(y)) + tuple(y)

    def rng_lit(self, st, d, ivs):
        """branch on: integer d lies in ivs"""
        if isconst(d):
            return [(st, any((l is None or l <= d) and (h is None or d <= h) for l, h in ivs))]
        sign, key, c = st.store.split(d)
        if len(key) == 1 and len(key[0][0]) == 1 and key[0][0][0].kind in ("div", "polyint") and abs(key[0][1]) == 1:
            # floor division: x div k in [l, h] is x in [l*k, h*k + k - 1]
            u = key[0][0][0]
            k = u.args[1] if u.kind == "div" else 1
            t = ivs if sign * key[0][1] == 1 else tuple(
                (None if h is None else -h, None if l is None else -l) for l, h in reversed(ivs))
            c = c * sign * key[0][1]
            return self.rng_lit(st, u.args[0], tuple(
                (None if l is None else (l - c) * k, None if h is None else (h - c) * k + k - 1) for l, h in t))
        if sign == 1:
            t = tuple((None if l is None else l - c, None if h is None else h - c) for l, h in ivs)
        else:
            t = tuple((None if h is None else c - h, None if l is None else c - l) for l, h in reversed(ivs))
        flip = False
        if len(t) == 1 and t[0][0] is not None and t[0][1] is None:
            t, flip = iv_not(t), True
        return [(y, b != flip) for y, b in st.branch(("rng", key, t))]

    def vb_equal(self, a, b, st, cx, node):
        pa = list(a.parts) if isinstance(a, VB) else [a]
        pb = list(b.parts) if isinstance(b, VB) else [b]
        if a == b"" or b == b"":
            o = pa if b == b"" else pb
            if any(not isinstance(p, Term) for p in o):
                return [(st, False)]
            if len(o) == 1:
                if o[0].kind == "utf8":
                    return self.equal(SS((o[0].args[0],)), "", st, cx, node)
                if o[0].kind == "unhex":
                    pass
                return st.branch(("choice", o[0], b""))
        d = isub(self.length(a, st), self.length(b, st))
        if isinstance(d, SI):
            lo, hi = st.store.rng(d)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return [(st, False)]
        elif d != 0:
            return [(st, False)]
        while pa and pb and pa[0] == pb[0] and type(pa[0]) is type(pb[0]):
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] == pb[-1] and type(pa[-1]) is type(pb[-1]):
            pa.pop()
            pb.pop()
        if not pa and not pb:
            return [(st, True)]
        if len(pa) == 1 and len(pb) == 1:
            p, q = pa[0], pb[0]
            if isinstance(p, Term) and isinstance(q, Term) and p.kind == "utf8" and q.kind == "utf8":
                return self.equal(SS((p.args[0],)), SS((q.args[0],)), st, cx, node)
            for p, q in ((p, q), (q, p)):
                if isinstance(p, Term) and p.kind == "utf8" and isinstance(q, bytes):
                    try:
                        return self.equal(SS((p.args[0],)), q.decode(), st, cx, node)
                    except UnicodeDecodeError:
                        return [(st, False)]
        return self.fork_unknown(st, "comparison of byte strings of unknown length", cx, node)

    HEXD = set("0123456789abcdef")

    def str_equal(self, a, b, st, cx, node):
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            t = sterm(a)
            if t is not None:
                if t.kind == "hex" and fixed(t.args[0]):
                    if len(b) != 2 * len(t.args[0]) or not set(b) <= self.HEXD:
                        return [(st, False)]
                    return self.equal(t.args[0], bytes.fromhex(b), st, cx, node)
                if t.kind == "b58":
                    if fixed(t.args[1]):
                        n = len(t.args[1])
                        if not set(b) <= set(t.args[0]) or len(b) < n or len(b) > n * 1.38 + 2:
                            return [(st, False)]
                    return self.fork_unknown(st, "comparison of Base58 text with a constant", cx, node)
                if t.kind == "ch":
                    if len(b) != 1 or ord(b) > 127:
                        return [(st, False)]
                    return self.eqbits(t.args[0].bits, cbits(b.encode()), st)
                if t.kind == "tabch":
                    vals = [i for i, c in enumerate(t.args[0]) if c == b]
                    if not vals:
                        return [(st, False)]
                    return self.equal(t.args[1], vals[0], st, cx, node) if len(vals) == 1 else \
                        self.fork_unknown(st, "table character", cx, node)
                return st.branch(("choice", t, b))
            # const parts must match at the ends
            if isinstance(a.parts[0], str) and not b.startswith(a.parts[0]):
                return [(st, False)]
            if isinstance(a.parts[-1], str) and not b.endswith(a.parts[-1]):
                return [(st, False)]
            return self.fork_unknown(st, "comparison of a composed string", cx, node)
        x, y = sterm(a), sterm(b)
        if x is not None and y is not None:
            if x.kind == y.kind == "hex" or (x.kind == y.kind == "b58" and x.args[0] == y.args[0]):
                return self.equal(x.args[-1], y.args[-1], st, cx, node)
            if {x.kind, y.kind} <= {"normalize", "in", "strcall", "strslice"}:
                p, q = (x, y) if x.id < y.id else (y, x)
                return st.branch(("flag", ("streq", p.id, q.id)))
        return self.fork_unknown(st, "comparison of strings", cx, node)

    # ------------------------------------------------------------ compare
    def compare(self, op, a, b, st, cx, node):
        if words.isw(a) or words.isw(b):
            return self.fork_unknown(st, "comparison of words", cx, node)
        if op == "Eq":
            return self.equal(a, b, st, cx, node)
        if op == "NotEq":
            return [(y, not r) for y, r in self.equal(a, b, st, cx, node)]
        if op in ("Is", "IsNot"):
            pos = op == "Is"
            if isinstance(a, Unk) or isinstance(b, Unk):
                return self.fork_unknown(st, "identity of an unknown value", cx, node)
            if isinstance(a, Ref) and isinstance(b, Ref) or a is None or b is None or isinstance(a, bool) \
                    or isinstance(b, bool) or isinstance(a, (Ext, Func)):
                return [(st, same(a, b) == pos)]
            if type(a) is not type(b) and self.pytype(a, st) != self.pytype(b, st):
                return [(st, not pos)]
            return self.fork_unknown(st, "identity of values", cx, node)
        if op in ("In", "NotIn"):
            pos = op == "In"
            return [(y, r == pos) for y, r in self.contains(b, a, st, cx, node)]
        a, b = self.unwrap(a, st), self.unwrap(b, st)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.fork_unknown(st, "ordering of an unknown value", cx, node)
        if isconst(a) and isconst(b):
            try:
                return [(st, {"Lt": lambda: a < b, "LtE": lambda: a <= b,
                              "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]())]
            except TypeError:
                return self.throw(st, "TypeError", "unorderable", node, cx)
        if isint(a) and isint(b):
            d = isub(a, b)
            iv = {"Lt": ((None, -1),), "LtE": ((None, 0),), "Gt": ((1, None),), "GtE": ((0, None),)}[op]
            return self.rng_lit(st, d, iv)
        if isint(a) and isinstance(b, float) or isinstance(a, float) and isint(b):
            x, f = (a, b) if isint(a) else (b, a)
            if f == int(f):
                return self.compare(op, a if isint(a) else int(a), b if isint(b) else int(b), st, cx, node)
            return self.fork_unknown(st, "float comparison", cx, node)
        if fixed(a) and fixed(b) and len(a) == len(b):
            return self.compare(op, int_bits(vbits(a)), int_bits(vbits(b)), st, cx, node)
        if isinstance(a, Ref) and isinstance(st.get(a), Inst):
            m = self.find_attr(st, st.get(a).cls, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__",
                                                   "GtE": "__ge__"}[op])
            if m is not None:
                return [(z, t) for y, r in self.call(m, [a, b], {}, st, cx, node)
                        for z, t in self.truth(r, y, cx, node)]
        if isinstance(a, Ref) and isinstance(st.get(a), SetObj) and isinstance(b, Ref) and \
                isinstance(st.get(b), SetObj):
            x, y = st.get(a).items, st.get(b).items
            if all(isconst(i) for i in x + y):
                x, y = set(x), set(y)
                return [(st, {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])]
        if a is None or b is None or self.pytype(a, st) != self.pytype(b, st):
            return self.throw(st, "TypeError", "unorderable", node, cx)
        return self.fork_unknown(st, "ordering", cx, node)

    def contains(self, box, v, st, cx, node):
        items = None
        if isinstance(box, Tup):
            items = box.items
        elif isinstance(box, Ref):
            o = st.get(box)
            if isinstance(o, (LObj, SetObj)):
                items = o.items
            elif isinstance(o, DObj):
                items = tuple(k for k, _ in o.items)
            elif isinstance(o, BAObj):
                box = o.data
            elif isinstance(o, IterObj):
                items = o.items[o.pos:]
            elif isinstance(o, Inst):
                m = self.find_attr(st, o.cls, "__contains__")
                if m is not None:
                    return [(z, t) for y, r in self.call(m, [box, v], {}, st, cx, node)
                            for z, t in self.truth(r, y, cx, node)]
                return self.fork_unknown(st, "membership in an object", cx, node)
            elif isinstance(o, Cls):
                mem = o.attrs.get("__members__")
                if mem is not None:
                    items = mem.items
        elif isinstance(box, XO) and box.kind == "range":
            if isint(v):
                lo, hi, step = box.args
                if step == 1:
                    return self.rng_lit(st, v, ((lo, hi - 1),)) if hi > lo else [(st, False)]
                if isconst(v):
                    return [(st, v in range(lo, hi, step))]
            return self.fork_unknown(st, "membership in range", cx, node)
        elif isinstance(box, XO) and box.kind == "srange":
            lo, hi = box.args
            if isint(v):
                out = []
                for y, b in self.compare("LtE", lo, v, st, cx, node):
                    if not b:
                        out.append((y, False))
                    else:
                        out += self.compare("Lt", v, hi, y, cx, node)
                return out
        if items is not None:
            if isint(v) and all(isconst(i) and isinstance(i, int) for i in items):
                if isconst(v):
                    return [(st, v in items)]
                x = ibits(v)
                if x is not None and len(x) <= 8:
                    vs = st.store.values(x)
                    if vs is not None:
                        ss = frozenset(int(i) for i in items if 0 <= i < 256)
                        if vs <= ss:
                            return [(st, True)]
                        if not vs & ss:
                            return [(st, False)]
                        return st.branch(("in", tuple(x), ss))
            if isinstance(v, BV) and len(v) == 1 and all(isinstance(i, bytes) for i in items):
                ss = frozenset(i[0] for i in items if len(i) == 1)
                vs = st.store.values(v.bits)
                if vs is not None:
                    if vs <= ss:
                        return [(st, True)]
                    if not vs & ss:
                        return [(st, False)]
                    return st.branch(("in", v.bits, ss))
            out = []
            cur = [st]
            for i in items:
                nxt = []
                for s in cur:
                    if same(i, v):
                        out.append((s, True))
                        continue
                    for y, b in self.equal(v, i, s, cx, node):
                        if b:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(box, Unk) or isinstance(v, Unk):
            return self.fork_unknown(st, "membership", cx, node)
        if isinstance(box, str) and isinstance(v, str) or isinstance(box, bytes) and isinstance(v, (int, bytes)):
            try:
                return [(st, v in box)]
            except (TypeError, ValueError) as e:
                return self.throw(st, type(e).__name__, "membership", node, cx)
        if isinstance(box, bytes) and isinstance(v, SI):
            x = ibits(v)
            if x is not None and len(x) <= 8 and st.store.values(x) is not None:
                return self.contains(Tup(tuple(sorted(set(box)))), v, st, cx, node)
        if isinstance(box, bytes) and isinstance(v, BV) and len(v) == 1:
            return self.contains(Tup(tuple(sorted(set(box)))), int_bits(v.bits), st, cx, node)
        if isinstance(box, str) and isinstance(v, SS):
            t = sterm(v)
            if t is not None and t.kind == "ch":
                s = frozenset(ord(c) for c in box if ord(c) < 128)
                vs = st.store.values(t.args[0].bits)
                if vs is not None:
                    if vs <= s:
                        return [(st, True)]
                    if not vs & s:
                        return [(st, False)]
                    return st.branch(("in", t.args[0].bits, s))
            if t is not None and t.kind == "tabch" and set(t.args[0]) <= set(box):
                return [(st, True)]
            if t is not None and t.kind == "in":
                # an opaque string inside a constant one: undetermined input condition
                return st.branch(("flag", ("substr", box, t.id)))
        if isinstance(box, SS) and isstr(v):
            for p in box.parts:
                if isinstance(p, str) and isinstance(v, str) and v in p:
                    return [(st, True)]
            t = sterm(box)
            if t is not None and isinstance(v, str):
                if t.kind == "b58" and not set(v) <= set(t.args[0]):
                    return [(st, False)]
                if t.kind == "hex" and not set(v) <= self.HEXD:
                    return [(st, False)]
                if t.kind in ("in", "normalize"):
                    return st.branch(("flag", ("has", t.id, v)))
        if isbytes(box) and isint(v) and fixed(box):
            items = [int_bits(vbits(box)[8 * i:8 * i + 8]) for i in range(len(box))]
            return self.contains(Tup(items), v, st, cx, node)
        if isinstance(box, Ext):
            if box.name in ("hashlib.algorithms_available", "hashlib.algorithms_guaranteed"):
                if isinstance(v, str) and v in ("sha256", "sha512", "sha1"):
                    return [(st, True)]
                return st.branch(("flag", ("available", v if isconst(v) else "?")))
            if box.name == "os.environ" and isinstance(v, str):
                return self.env_set(v, st)
        if self.enums and isint(box) and isint(v) and not isinstance(box, bool):      # a flag in a set of flags
            return [r for y, w in self.binop("BitAnd", box, v, st, cx, node) for r in self.equal(w, v, y, cx, node)]
        if box is None or isint(box):
            return self.throw(st, "TypeError", "argument is not iterable", node, cx)
        if isbytes(box) and isbytes(v) and fixed(box) and fixed(v) and len(v) <= len(box) <= 256:
            return [(y, i is not None) for y, i in self.find_bytes(box, v, st)]
        return self.fork_unknown(st, "membership", cx, node)

    def find_bytes(self, box, v, st):
        """every position at which fixed-length bytes can first contain others (None: nowhere)"""
        b, x, n = vbits(box), vbits(v), len(v)
        cur, out = [st], []
        for i in range(len(box) - n + 1):
            nxt = []
            for s in cur:
                for y, eq in self.eqbits(b[8 * i:8 * (i + n)], x, s) if n else [(s, True)]:
                    if eq:
                        out.append((y, i))
                    else:
                        nxt.append(y)
            cur = nxt
        return out + [(y, None) for y in cur]

    def env_set(self, name, st):
        """is the variable set?  At import one answer at a time (history.worlds asks for the others)"""
        if self.booting:
            self.envread.add(name)
            return [(st, name in self.world)]
        return st.branch(("flag", ("envset", name)))

    def env_text(self, name):
        """the text of an environment variable that is set: anything"""
        return SS((T("in", "env:" + name),))

    # ------------------------------------------------------------ integers
    def bits_of(self, v, st):
        """bits (MSB first) of a nonnegative integer, valid on this path"""
        b = ibits(v)
        if b is not None:
            return b
        if isinstance(v, int):
            return None
        lo, hi = st.store.rng(v)
        if lo is None or lo < 0 or hi is None or hi > 1 << 4096:
            return None
        n = hi.bit_length()
        d = poly(v)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and c == 1:
                return tuple(atom_bit(m[0], i - n) for i in range(n))
        acc = (0,) * n
        for m, c in sorted(d.items(), key=lambda x: abs(x[1])):
            if c < 0 or c & (c - 1):
                acc = None
                break
            if m == ():
                bs = ibits(c)
            else:
                if len(m) != 1:
                    acc = None
                    break
                bs = self.bits_of(mkint_poly({m: 1}), st)
                if bs is None:
                    acc = None
                    break
                bs = tuple(bs) + (0,) * (c.bit_length() - 1)
            p, q = self._padbits(acc, bs)
            if not all(x == 0 or y == 0 for x, y in zip(p, q)):
                acc = None
                break
            acc = tuple(bxor(x, y) for x, y in zip(p, q))
        if acc is not None:
            return acc[len(acc) - n:] if len(acc) > n else acc
        t = T("polyint", v, n)
        return tuple(atom_bit(t, i - n) for i in range(n))

    def divmod_(self, v, c, st):
        """(quotient, remainder) of floor division by the constant c > 0"""
        if isconst(v):
            return divmod(v, c)
        if c == 1:
            return v, 0
        if c & (c - 1) == 0:
            b = ibits(v)
            if b is not None:
                k = c.bit_length() - 1
                return int_bits(b[:len(b) - k] if len(b) > k else ()), int_bits(b[-k:] if len(b) > k else b)
        lo, hi = st.store.rng(v)
        if lo is not None and hi is not None and lo // c == hi // c:
            q = lo // c
            return q, isub(v, q * c)
        d = poly(v)
        # x - (x mod c)
        for m, k in d.items():
            if k == -1 and len(m) == 1 and m[0].kind == "mod" and m[0].args[1] == c:
                rest = dict(d)
                del rest[m]
                if mkint_poly(rest) == m[0].args[0]:
                    return self.divmod_(m[0].args[0], c, st)[0], 0
        if c & (c - 1) == 0 and any(k > 1 and k & (k - 1) for k in d.values()) and all(k > 0 for k in d.values()):
            b = self.bits_of(v, st)
            if b is not None:
                k = c.bit_length() - 1
                return int_bits(b[:len(b) - k] if len(b) > k else ()), int_bits(b[-k:] if len(b) > k else b)
        qd = {m: k // c for m, k in d.items()}
        r = mkint_poly({m: k % c for m, k in d.items()})
        q = mkint_poly(qd)
        if r == 0:
            return q, 0
        if not isconst(r) and any(qd.values()):
            rl, rh = st.store.rng(r)
            if rl is not None and rh is not None and rl // c == rh // c:
                return iadd(q, rl // c), isub(r, (rl // c) * c)
            dq, dr = self.divmod_(r, c, st)
            return iadd(q, dq), dr
        if c & (c - 1) == 0:
            b = self.bits_of(v, st)
            if b is not None:
                k = c.bit_length() - 1
                return int_bits(b[:len(b) - k] if len(b) > k else ()), int_bits(b[-k:] if len(b) > k else b)
        if len(d) == 1:
            (m, k), = d.items()
            if k == 1 and len(m) == 1 and m[0].kind == "div":
                q = iatom(T("div", m[0].args[0], m[0].args[1] * c))
                return q, iatom(T("mod", v, c))
        return iatom(T("div", v, c)), self.mod_(v, c, st)

    def mod_(self, v, c, st):
        if isconst(v):
            return v % c
        lo, hi = st.store.rng(v)
        if lo is not None and hi is not None and lo // c == hi // c:
            return isub(v, lo // c * c)
        if c.bit_length() > 200:
            m = modpoly(v, c)
            r = mkint_poly(m)
            if isconst(r):
                return r % c
            if len(m) == 1:
                (k, cf), = m.items()
                if cf == 1 and len(k) == 1:
                    lo, hi = st.store.rng(r)
                    if lo is not None and hi is not None and lo >= 0 and hi < c:
                        return r
            return iatom(T("mod", r, c))
        return iatom(T("mod", v, c))

    def word_op(self, op, a, b):
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        for v in (a, b):
            if not (words.isw(v) or isint(v)):
                return None
        return words.op(op, a, b, ibits(a) if isinstance(a, SI) else None, ibits(b) if isinstance(b, SI) else None)

    def words_int_op(self, op, a, b, st, cx, node):
        """integer arithmetic that stays on bits, or goes over to words"""
        if op in ("Add", "Sub", "Mult"):
            r = {"Add": iadd, "Sub": isub, "Mult": imul}[op](a, b)
            if ibits(r) is not None:
                return [(st, r)]
        r = self.word_op(op, a, b)
        if r is not None and words.as_bits(r.args[0]) is None:
            return [(st, r)]
        return self.int_op(op, a, b, st, cx, node)

    def int_op(self, op, a, b, st, cx, node):
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if isconst(a) and isconst(b):
            if op == "Pow" and abs(b) > 100000 or op == "LShift" and b > 1000000:
                return [(st, self.undecided(st, "huge constant", node, cx))]
            try:
                return [(st, {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                              "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                              "Pow": lambda: a ** b, "LShift": lambda: a << b, "RShift": lambda: a >> b,
                              "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]())]
            except ZeroDivisionError:
                return self.throw(st, "ZeroDivisionError", "division by zero", node, cx)
            except (ValueError, OverflowError) as e:
                return self.throw(st, type(e).__name__, "arithmetic", node, cx)
        if op == "Add":
            return [(st, iadd(a, b))]
        if op == "Sub":
            return [(st, isub(a, b))]
        if op == "Mult":
            return [(st, imul(a, b))]
        if op in ("FloorDiv", "Mod", "Div"):
            if isconst(b) and b > 0:
                if op == "Div":
                    lo, hi = st.store.rng(a)
                    if lo is not None and hi is not None and max(abs(lo), abs(hi)) < 1 << 50 and isconst(b):
                        return [(st, XO("ratio", a, b))]      # rounded correctly, far from the next integer
                    return [(st, Unk("float quotient", taint(a)))]
                if op == "Mod":
                    if b & (b - 1) == 0 and ibits(a) is not None:
                        return [(st, self.divmod_(a, b, st)[1])]
                    return [(st, self.mod_(a, b, st) if b.bit_length() > 200 else self.divmod_(a, b, st)[1])]
                return [(st, self.divmod_(a, b, st)[0])]
            if isconst(b) and b == 0:
                return self.throw(st, "ZeroDivisionError", "division by zero", node, cx)
            return [(st, self.undecided(st, "division by a symbolic value", node, cx, Tup((a, b))))]
        if op == "Pow":
            if isconst(b) and 0 <= b <= 8:
                r = 1
                for _ in range(b):
                    r = imul(r, a)
                return [(st, r)]
            if isconst(a) and a == 2:
                return self.int_op("LShift", 1, b, st, cx, node)
            return [(st, self.undecided(st, "power", node, cx, Tup((a, b))))]
        if op == "LShift":
            if isconst(b):
                if b < 0:
                    return self.throw(st, "ValueError", "negative shift count", node, cx)
                return [(st, imul(1 << b, a))]
            return [(st, self.undecided(st, "shift", node, cx, Tup((a, b))))]
        if op == "RShift":
            if isconst(b):
                if b < 0:
                    return self.throw(st, "ValueError", "negative shift count", node, cx)
                return [(st, self.divmod_(a, 1 << b, st)[0])]
            return [(st, self.undecided(st, "shift", node, cx, Tup((a, b))))]
        # bit operations
        if op == "BitAnd":
            for x, m in ((a, b), (b, a)):
                if isconst(m) and m >= 0 and m & (m + 1) == 0:
                    return [(st, self.divmod_(x, m + 1, st)[1])]
        if op == "BitAnd":
            for x, m in ((a, b), (b, a)):
                if isconst(m) and m < 0:
                    y = self.bits_of(x, st)
                    if y is not None:
                        return [(st, int_bits(bb if (m >> (len(y) - 1 - i)) & 1 else 0 for i, bb in enumerate(y)))]
        x, y = self.bits_of(a, st), self.bits_of(b, st)
        if x is None or y is None:
            return [(st, self.undecided(st, f"bit operation {op}", node, cx, Tup((a, b))))]
        p, q = self._padbits(x, y)
        f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op]
        return [(st, int_bits(f(u, w) for u, w in zip(p, q)))]

    def unary(self, op, v, st, cx, node):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            return [(st, -v if op == "USub" else (~v if op == "Invert" else +v))]
        if isinstance(v, SI):
            if op == "USub":
                return [(st, ineg(v))]
            if op == "Invert":
                return [(st, isub(ineg(v), 1))]
            return [(st, v)]
        if words.isw(v) and op in ("Invert", "USub", "UAdd"):
            i = v.args[0]
            if op == "UAdd":
                return [(st, v)]
            return [(st, words.W(words.not_(i) if op == "Invert" else words.mul(i, -1), False))]
        if isinstance(v, XO) and v.kind in ("jac", "aff") and op == "USub":
            return [(st, XO(v.kind, ecmul(v.args[0], -1)))]
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            m = self.find_attr(st, st.get(v).cls, {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op])
            if m is not None:
                return self.call(m, [v], {}, st, cx, node)
        if isinstance(v, Unk):
            return [(st, Unk(v.why, v.taint))]
        return self.throw(st, "TypeError", "bad operand", node, cx)

    def int_to_bytes(self, v, n, order, signed, st, cx, node):
        if isinstance(v, bool):
            v = int(v)
        if not isconst(n) or not isinstance(n, int):
            if isinstance(n, SI):
                lo, hi = st.store.rng(n)
                if lo is not None and lo == hi:
                    n = lo
        if not (isconst(n) and isinstance(n, int)) or not isinstance(order, str):
            return [(st, self.undecided(st, "to_bytes of unknown length", node, cx, v))]
        if order not in ("big", "little"):
            return self.throw(st, "ValueError", "byteorder must be either 'little' or 'big'", node, cx)
        if n < 0:
            return self.throw(st, "ValueError", "length argument must be non-negative", node, cx)
        if words.isw(v):
            i, exact = v.args
            if not exact or signed or n < 4:
                return [(st, self.undecided(st, "to_bytes of a word", node, cx))]
            b = words.bytes_of(v, order)
            return [(st, bcat(b, bytes(n - 4)) if order == "little" else bcat(bytes(n - 4), b))]
        if isconst(v):
            try:
                return [(st, v.to_bytes(n, order, signed=bool(signed)))]
            except OverflowError:
                return self.throw(st, "OverflowError", "int too big to convert", node, cx)
        out = []
        lim = (1 << (8 * n)) - 1 if not signed else (1 << (8 * n - 1)) - 1 if n else 0
        low = 0 if not signed else -lim - 1
        b = ibits(v)
        if b is not None and not signed and len(b) > 8 * n:
            nb = st.store.nbits(b)
            over = tuple(sorted(set(nb[:len(b) - 8 * n]) - {0}))
            res = st.branch(("eqbits", over)) if over and 1 not in over else [(st, not over)]
        elif b is not None and not signed:
            res = [(st, True)]
        else:
            res = self.rng_lit(st, v, ((low, lim),))
        for y, ok in res:
            if not ok:
                self.throw(y, "OverflowError", "int too big to convert", node, cx)
                continue
            if signed:
                z = [(w, t) for w, t in self.compare("Lt", v, 0, y, cx, node)]
            else:
                z = [(y, False)]
            for w, neg in z:
                x = iadd(v, 1 << (8 * n)) if neg else v
                bs = self.bits_of(x, w)
                if bs is None:
                    out.append((w, self.undecided(w, "to_bytes", node, cx, v)))
                    continue
                bs = (0,) * (8 * n - len(bs)) + tuple(bs)
                bs = bs[len(bs) - 8 * n:]
                if order == "little":
                    bs = tuple(q for i in range(n - 1, -1, -1) for q in bs[8 * i:8 * i + 8])
                out.append((w, mkbytes(bs)))
        return out

    def int_from_bytes(self, v, order, signed, st, cx, node):
        out = []
        for y, d in self.to_bytes_like(v, st, cx, node):
            if isinstance(d, Unk):
                out.append((y, d))
                continue
            if not fixed(d):
                out.append((y, iatom(T("intbytes", d))))
                y.mark(f"from_bytes of unknown length at {self.where(node, cx)}")
                continue
            if not isinstance(order, str):
                out.append((y, self.undecided(y, "byte order", node, cx)))
                continue
            if order not in ("big", "little"):
                self.throw(y, "ValueError", "byteorder", node, cx)
                continue
            if isinstance(d, bytes):
                out.append((y, int.from_bytes(d, order, signed=bool(signed))))
                continue
            bs = d.bits
            if order == "little":
                bs = tuple(q for i in range(len(d) - 1, -1, -1) for q in bs[8 * i:8 * i + 8])
            if signed and bs and bs[0] != 0:
                for z, neg in self.eqbits((bs[0],), (1,), y):
                    out.append((z, isub(int_bits(bs), (1 << len(bs)) if neg else 0)))
            else:
                v = int_bits(bs)
                if self.words and isinstance(v, SI) and len(d) <= 4:
                    v = words.W(words.frombits(bs), True)
                out.append((y, v))
        return out

    def bit_length(self, v, st, cx, node):
        if isconst(v):
            return [(st, v.bit_length())]
        t = T("bitlen", v)
        lo, hi = st.store.rng(v)
        if ibits(v) is None and lo is not None and hi is not None:
            r = self.byte_classes(v, t, lo, hi, st)
            if r is not None:
                return r
        bs = self.bits_of(v, st)
        if bs is None:
            if lo is None or hi is None:
                return [(st, self.undecided(st, "bit_length", node, cx))]
            return [self._bl(st, (((t,), 1),), t, 0 if lo <= 0 <= hi else min(abs(lo), abs(hi)).bit_length(),
                             max(abs(lo), abs(hi)).bit_length())]
        bs = tuple(st.store.nbits(bs))
        i = 0
        while i < len(bs) and bs[i] == 0:
            i += 1
        bs = bs[i:]
        if not bs:
            return [(st, 0)]
        if bs[0] == 1:
            return [(st, len(bs))]
        n = len(bs)
        t = T("bitlen", v)
        key = (((t,), 1),)
        out = []
        cur = st
        classes = 0
        top = n
        lo, hi = st.store.rng(v)
        while top > 0 and classes < 3:
            low = (top - 1) // 8 * 8          # class: bit length in (low, top]
            diffs = tuple(sorted(set(bs[n - top:n - low]) - {0}))
            if not diffs:
                top = low
                continue
            if 1 in diffs:
                out.append(self._bl(cur, key, t, low + 1, top))
                return [o for o in out if o]
            nxt = None
            for y, z in cur.branch(("eqbits", diffs)):
                if z:
                    nxt = y
                else:
                    l2, h2 = y.store.rng(v)
                    out.append(self._bl(y, key, t, low + 1, top))
            if nxt is None:
                return [o for o in out if o]
            cur = nxt
            top = low
            classes += 1
            l2, h2 = cur.store.rng(v)
        if top == 0:
            out.append((cur, 0))
        else:
            out.append(self._bl(cur, key, t, 0, top))
        return [o for o in out if o]

    def byte_classes(self, v, t, lo, hi, st):
        """bit length of an integer in a narrow range: one case per number of bytes"""
        a, b = (max(lo, 0).bit_length() + 7) // 8, (max(hi, 0).bit_length() + 7) // 8
        if lo < 0 or b - a > 3:
            return None
        out, cur = [], [st]
        for n in range(a, b + 1):
            nxt = []
            for s in cur:
                for y, ok in self.rng_lit(s, v, ((0 if n == 0 else 256 ** (n - 1), 256 ** n - 1),)):
                    if not ok:
                        nxt.append(y)
                        continue
                    l, h = y.store.rng(v)
                    r = (y, 0) if n == 0 else self._bl(
                        y, (((t,), 1),), t, max(l or 0, 256 ** (n - 1)).bit_length(), min(h, 256 ** n - 1).bit_length())
                    if r:
                        out.append(r)
            cur = nxt
        return out

    def _bl(self, st, key, t, lo, hi):
        if lo == hi:
            return (st, lo)
        if not st.assume(("rng", key, ((lo, hi),)), True):
            return None
        return (st, iatom(t))

    # ------------------------------------------------------------ binary operators
    def binop(self, op, a, b, st, cx, node):
        if isinstance(a, Unk) or isinstance(b, Unk):
            return [(st, Unk(f"{OPNAMES.get(op, op)} of unknown", taint(a) | taint(b)))]
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and \
                (isinstance(a, float) or isinstance(b, float)):
            try:
                return [(st, {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                              "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                              "Pow": lambda: a ** b}[op]())]
            except (KeyError, ZeroDivisionError, OverflowError):
                return self.throw(st, "TypeError", "float arithmetic", node, cx)
        if self.words and (words.isw(a) or words.isw(b)):
            r = self.word_op(op, a, b)
            return [(st, self.undecided(st, f"{op} of words", node, cx) if r is None else r)]
        if isint(a) and isint(b):
            if self.words and not (isconst(a) and isconst(b)):
                return self.words_int_op(op, a, b, st, cx, node)
            return self.int_op(op, a, b, st, cx, node)
        ua, ub = self.unwrap(a, st), self.unwrap(b, st)
        if isbytes(ua) and isbytes(ub) and op == "Add":
            r = bcat(ua, ub)
            if isinstance(a, Ref):
                return [(st, st.new(BAObj(r)))]
            return [(st, r)]
        if isstr(a) and isstr(b) and op == "Add":
            return [(st, scat(a, b))]
        for x, k in ((a, b), (b, a)):
            if op == "Mult" and isint(k) and not isint(x):
                ux = self.unwrap(x, st)
                if isinstance(x, XO) and x.kind in ("jac", "aff", "rawpt", "inf"):
                    break
                if isbytes(ux) or isstr(ux):
                    if isconst(k):
                        k = max(0, int(k))
                        if k > 100000:
                            return [(st, self.undecided(st, "huge repetition", node, cx))]
                        if isstr(ux):
                            return [(st, scat(*([ux] * k)) if k else "")]
                        r = bcat(*([ux] * k)) if k else b""
                        return [(st, r if ux is x else st.new(BAObj(r)))]
                    # a count that is one of few values
                    lo, hi = st.store.rng(k)
                    if lo is not None and hi is not None and hi - lo <= 64:
                        out = []
                        cur = st
                        for i in range(lo, hi + 1):
                            nxt = None
                            for y, eq in self.equal(k, i, cur, cx, node):
                                if eq:
                                    out += self.binop(op, x, i, y, cx, node)
                                else:
                                    nxt = y
                            if nxt is None:
                                break
                            cur = nxt
                        return out
                    return [(st, self.undecided(st, "repetition", node, cx, x))]
                if isinstance(x, Tup) and isconst(k):
                    return [(st, Tup(x.items * max(0, k)))]
                if isinstance(x, Ref) and isinstance(st.get(x), LObj) and isconst(k):
                    return [(st, st.alloc_list(st.get(x).items * max(0, k)))]
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "Add":
            return [(st, Tup(a.items + b.items))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.get(a), st.get(b)
            if isinstance(x, LObj) and isinstance(y, LObj) and op == "Add":
                return [(st, st.alloc_list(x.items + y.items))]
            if isinstance(x, DObj) and isinstance(y, DObj) and op == "BitOr":
                from interp import dset
                items = list(x.items)
                for k, v in y.items:
                    items = dset(items, k, v)
                return [(st, st.new(DObj(items)))]
            if isinstance(x, SetObj) and isinstance(y, SetObj) and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
                if all(isconst(i) or isinstance(i, (Ref, Ext)) for i in x.items + y.items):
                    xs, ys = list(x.items), list(y.items)
                    inx = lambda v, l: any(same(v, w) for w in l)
                    if op == "BitOr":
                        r = xs + [v for v in ys if not inx(v, xs)]
                    elif op == "BitAnd":
                        r = [v for v in xs if inx(v, ys)]
                    elif op == "Sub":
                        r = [v for v in xs if not inx(v, ys)]
                    else:
                        r = [v for v in xs if not inx(v, ys)] + [v for v in ys if not inx(v, xs)]
                    return [(st, st.new(SetObj(r, x.frozen)))]
                return [(st, self.undecided(st, "set operation", node, cx))]
        if op == "Mod" and (isstr(a) or isbytes(a)):
            args = b.items if isinstance(b, Tup) and b.cls is None else (b,)
            if isconst(a):
                try:
                    return [(st, a % (tuple(deepconst(x) for x in args) if isinstance(b, Tup) else deepconst(b)))]
                except TypeError:
                    pass
                if isinstance(a, str):
                    r = self.percent(a, args, st, cx, node)
                    if r is not None:
                        return r
            if isbytes(a):
                r = self.percent_bytes(a, args, st, cx, node) if isconst(a) else None
                return r if r is not None else [(st, self.undecided(st, "formatting of bytes", node, cx))]
            return [(st, SS((T("fmt", Unk("%", self.deep_taint(Tup((a, b)), st))),)))]
        r = self.ext_binop(op, a, b, st, cx, node)
        if r is not None:
            return r
        nm = OPNAMES.get(op, op)
        if isinstance(a, Ref) and isinstance(st.get(a), Inst):
            m = self.find_attr(st, st.get(a).cls, f"__{nm}__")
            if m is not None:
                return self.call(m, [a, b], {}, st, cx, node)
        if isinstance(b, Ref) and isinstance(st.get(b), Inst):
            m = self.find_attr(st, st.get(b).cls, f"__r{nm}__")
            if m is not None:
                return self.call(m, [b, a], {}, st, cx, node)
        if op == "BitOr":      # typing unions  X | None
            return [(st, Ext("types.UnionType"))] if not (isbytes(ua) or isstr(a)) else \
                self.throw(st, "TypeError", "unsupported operand types", node, cx)
        return self.throw(st, "TypeError", f"unsupported operand types for {op}", node, cx)

    def percent_bytes(self, fmt, args, st, cx, node):
        """b"%b..." % bytes-like values: their concatenation"""
        import re
        parts, pos, i = [], 0, 0
        for m in re.finditer(rb"%(.)", fmt, re.S):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(1) == b"%":
                parts.append(b"%")
            elif m.group(1) in b"bs" and i < len(args):
                v = self.unwrap(args[i], st)
                v = v.args[0] if isinstance(v, XO) and v.kind == "memoryview" else v
                if v is None or isstr(v) or isint(v):
                    return self.throw(st, "TypeError", "%b requires a bytes-like object", node, cx)
                if not isbytes(v):
                    return None
                parts.append(v)
                i += 1
            else:
                return None
        if i != len(args):
            return None
        return [(st, bcat(*parts, fmt[pos:]))]

    def percent(self, fmt, args, st, cx, node):
        import re
        if "*" in fmt:                       # widths given as arguments
            args, rest, k = [], list(args), 0

            def width(m):
                nonlocal k
                if m.group(0) == "%%":
                    return "%%"
                if "*" in m.group(0):
                    if not rest or not isinstance(rest[0], int) or rest[0] < 0:
                        raise ValueError
                    w = str(rest.pop(0))
                else:
                    w = None
                if not rest:
                    raise ValueError
                args.append(rest.pop(0))
                return m.group(0) if w is None else m.group(0).replace("*", w)
            try:
                fmt = re.sub(r"%(%|[-0 +#]*(?:\*|\d*)[sdrxX])", width, fmt)
            except ValueError:
                return None
            if "*" in fmt:
                return None
            args += rest
        cur = [(st, "")]
        pos = 0
        i = 0
        for m in re.finditer(r"%(%|(0?\d*)([sdrxX]))", fmt):
            lit = fmt[pos:m.start()]
            pos = m.end()
            nxt = []
            if m.group(1) == "%":
                cur = [(y, scat(acc, lit, "%")) for y, acc in cur]
                continue
            if i >= len(args):
                return None
            spec, conv = m.group(2), m.group(3)
            v = args[i]
            i += 1
            for y, acc in cur:
                sp = "" if conv in "sr" else spec + conv
                for z, s in self.format_value(v, sp, "r" if conv == "r" else ("s" if conv == "s" else ""), y, cx, node):
                    nxt.append((z, scat(acc, lit, s)))
            cur = nxt
        if i != len(args):
            return None
        return [(y, scat(acc, fmt[pos:])) for y, acc in cur]

    # ------------------------------------------------------------ text
    def format_value(self, v, spec, conv, st, cx, node):
        if isstr(v) and conv != "r" and spec == "":
            return [(st, v)]
        if isconst(v) and isinstance(spec, str):
            try:
                x = {"r": repr, "s": str, "a": ascii, "": lambda q: q}[conv](v)
                return [(st, format(x, spec))]
            except (ValueError, TypeError):
                return self.throw(st, "ValueError", "bad format", node, cx)
        if isinstance(v, SI) and conv == "" and isinstance(spec, str) and spec:
            s = spec.lstrip("#") if False else spec
            if s[-1:] == "x":
                r = self.hex_str(v, s[:-1], st)
                if r is not None:
                    return [(st, r)]
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            c = st.get(v).cls
            for nm in (("__repr__",) if conv == "r" else ("__format__", "__str__", "__repr__")):
                m = self.find_attr(st, c, nm)
                if m is not None:
                    return self.call(m, [v] + ([spec] if nm == "__format__" else []), {}, st, cx, node)
            if self.is_exc(st, st.get(v)):
                args = st.get(v).attrs.get("args", Tup(()))
                if len(args.items) == 1 and isstr(args.items[0]) and conv != "r":
                    return [(st, args.items[0])]
                return [(st, SS((T("fmt", Unk("exception text", self.deep_taint(args, st))),)))]
        if isinstance(v, (SI, SS, BV, VB)):
            return [(st, SS((T("fmt", v, spec if isinstance(spec, str) else "?", conv),)))]
        try:
            if isinstance(v, Tup):
                c = deepconst(v)
                return [(st, format(repr(c) if conv == "r" else str(c), spec))]
        except (TypeError, ValueError):
            pass
        # containers with repr of elements: repository objects inside are reached by deep_taint
        return [(st, SS((T("fmt", Unk("text of a value", self.deep_taint(v, st)), spec if isinstance(spec, str)
                           else "?", conv),)))]

    def hex_str(self, v, width, st):
        """lower-case hexadecimal digits of v, zero-filled to `width`"""
        if width == "":
            return SS((T("hexint", v),))
        if width[0] == "0" and width[1:].isdigit():
            w = int(width[1:])
            lo, hi = st.store.rng(v)
            if lo is not None and lo >= 0 and hi is not None and w % 2 == 0 and hi < 1 << (4 * w):
                bs = self.bits_of(v, st)
                return mkhex(mkbytes((0,) * (4 * w - len(bs)) + tuple(bs)))
        return None

    def to_str(self, v, st, cx, node):
        return self.format_value(v, "", "s", st, cx, node)

    # ------------------------------------------------------------ bytes
    def to_bytes_like(self, v, st, cx, node):
        """bytes of a bytes-like or iterable-of-ints value"""
        v = self.unwrap(v, st)
        if isbytes(v):
            return [(st, v)]
        if isinstance(v, XO) and v.kind == "memoryview":
            return [(st, v.args[0])]
        if isinstance(v, Unk):
            return [(st, v)]
        if isstr(v):
            return self.throw(st, "TypeError", "a bytes-like object is required, not 'str'", node, cx)
        if v is None or isint(v) or isinstance(v, float):
            return self.throw(st, "TypeError", "a bytes-like object is required", node, cx)
        out = []
        for y, items in self.iterate(v, st, cx, node):
            if items is None:
                out.append((y, self.undecided(y, "bytes of an unknown iterable", node, cx, v)))
                continue
            cur = [(y, [])]
            for i in items:
                nxt = []
                for z, acc in cur:
                    if not isint(i):
                        self.throw(z, "TypeError", "object cannot be interpreted as an integer", node, cx)
                        continue
                    self.sinks.append([])
                    res = self.int_to_bytes(i, 1, "big", False, z, cx, node)
                    for s2, e, w in self.sinks.pop():
                        self.throw(s2, "ValueError", "bytes must be in range(0, 256)", node, cx)
                    for w, b in res:
                        nxt.append((w, acc + [b]))
                cur = nxt
            for z, acc in cur:
                if any(isinstance(b, Unk) for b in acc):
                    out.append((z, Unk("bytes", taint(v))))
                else:
                    out.append((z, bcat(*acc) if acc else b""))
        return out

    def byte_items(self, v):
        bits = vbits(v)
        return [int_bits(bits[8 * i:8 * i + 8]) for i in range(len(v))]

    # ------------------------------------------------------------ iteration
    def iterate(self, v, st, cx, node):
        if isinstance(v, VB):
            v = sized(v, st.store)
        if isinstance(v, Tup):
            return [(st, list(v.items))]
        if isinstance(v, str):
            return [(st, list(v))]
        if fixed(v):
            return [(st, self.byte_items(v))]
        if isinstance(v, SS):
            items = []
            for p in v.parts:
                if isinstance(p, str):
                    items += list(p)
                elif p.kind in ("ch", "tabch"):
                    items.append(SS((p,)))
                else:
                    return [(st, None)]
            return [(st, items)]
        if isinstance(v, XO) and v.kind == "range":
            r = range(*v.args)
            if len(r) > 200000:
                raise TooComplex("range")
            return [(st, list(r))]
        if isinstance(v, XO) and v.kind == "memoryview":
            return self.iterate(v.args[0], st, cx, node)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, (LObj, SetObj)):
                return [(st, list(o.items))]
            if isinstance(o, DObj):
                return [(st, [k for k, _ in o.items])]
            if isinstance(o, BAObj):
                return self.iterate(o.data, st, cx, node)
            if isinstance(o, EndlessObj):
                return [(st, None)]
            if isinstance(o, IterObj):
                items = list(o.items[o.pos:])
                st.put(v, IterObj(o.items, len(o.items)), self.where(node, cx))
                return [(st, items)]
            if isinstance(o, Cls) and "__members__" in o.attrs:
                return [(st, list(o.attrs["__members__"].items))]
            if isinstance(o, Inst):
                m = self.find_attr(st, o.cls, "__iter__")
                if m is not None:
                    return [(z, i) for y, r in self.call(m, [v], {}, st, cx, node)
                            for z, i in (self.iterate(r, y, cx, node) if r != v else [(y, None)])]
                return self.throw(st, "TypeError", "object is not iterable", node, cx)
        if isinstance(v, Unk) or isinstance(v, VB) or isinstance(v, XO) or isinstance(v, Ext):
            return [(st, None)]
        return self.throw(st, "TypeError", "object is not iterable", node, cx)

    # ------------------------------------------------------------ subscripts
    def norm_index(self, k, n):
        return k + n if k < 0 else k

    def getitem(self, o, k, st, cx, node):
        if isinstance(o, (Ext, Unk)) and not (isinstance(o, Ext) and o.name in PYTYPES):
            if isinstance(o, Ext):
                if o.name == "os.environ":
                    if not isinstance(k, str):
                        return [(st, Unk("environment variable", taint(k)))]
                    out = []
                    for y, ok in self.env_set(k, st):
                        if ok:
                            out.append((y, self.env_text(k)))
                        else:
                            self.throw(y, "KeyError", k, node, cx)
                    return out
                if o.name == "sys.modules" and isinstance(k, str) and k in self.modrefs:
                    return [(st, self.modrefs[k])]
                return [(st, XO("extsub", o))]
            p = o.why
            if isinstance(p, Term) and p.kind == "strparts" and not any(
                    isinstance(x, str) and x.startswith("?") for x in p.args[2:]):
                if p.args[0] in ("split", "rsplit") \
                        and k in (0, -1) and len(p.args) > 2 and isinstance(p.args[2], str) and p.args[2]:
                    return [(st, SS((T("stritem", p, k),)))]
            return [(st, Unk(f"item of {o.why}", o.taint))]
        if isinstance(o, Ext) or isinstance(o, XO) and o.kind == "extsub":
            return [(st, XO("extsub", o if isinstance(o, Ext) else o.args[0]))]
        if isinstance(o, XO) and o.kind == "memoryview":
            o = o.args[0]
        ref = o
        if isinstance(o, Ref):
            ob = st.get(o)
            if isinstance(ob, DObj):
                return self.dict_get(o, ob, k, st, cx, node)
            if isinstance(ob, BAObj):
                r = self.getitem(ob.data, k, st, cx, node)
                if isinstance(k, XO):
                    return [(y, y.new(BAObj(v)) if isbytes(v) else v) for y, v in r]
                return r
            if isinstance(ob, LObj):
                o = Tup(ob.items)
            elif isinstance(ob, Inst):
                m = self.find_attr(st, ob.cls, "__getitem__")
                if m is not None:
                    return self.call(m, [o, k], {}, st, cx, node)
                return self.throw(st, "TypeError", "object is not subscriptable", node, cx)
            elif isinstance(ob, Cls):
                if any(f.startswith("enum.") for f in ob.flags) and isinstance(k, str):
                    if k in ob.attrs:
                        return [(st, ob.attrs[k])]
                    return self.throw(st, "KeyError", k, node, cx)
                m = self.find_attr(st, o, "__class_getitem__")
                if m is not None:
                    return self.call(m, [o, k], {}, st, cx, node)
                return [(st, o)]
            elif isinstance(ob, SetObj):
                return self.throw(st, "TypeError", "object is not subscriptable", node, cx)
        if isinstance(o, VB):
            o = sized(o, st.store)
        if isinstance(k, XO) and k.kind == "slice":
            idx = []
            for x in k.args:
                if isinstance(x, SI):
                    lo, hi = st.store.rng(x)
                    if lo is not None and lo == hi:
                        x = lo
                idx.append(x)
            if not all(x is None or isinstance(x, int) for x in idx):
                return self.sym_slice(o, idx, st, cx, node)
            a, b, s = idx
            if s == 0:
                return self.throw(st, "ValueError", "slice step cannot be zero", node, cx)
            sl = slice(a, b, s)
            if isinstance(o, (str, bytes)):
                return [(st, o[sl])]
            if isinstance(o, Tup):
                r = o.items[sl]
                if isinstance(ref, Ref):
                    return [(st, st.alloc_list(r))]
                return [(st, Tup(r))]
            if isinstance(o, BV):
                i0, i1, stp = sl.indices(len(o))
                if stp == 1:
                    return [(st, bslice(o, i0, max(i0, i1)))]
                out = ()
                for i in range(i0, i1, stp):
                    out += o.bits[8 * i:8 * i + 8]
                return [(st, mkbytes(out))]
            if isinstance(o, VB):
                return self.vb_slice(o, a, b, s, st, cx, node)
            if isinstance(o, SS):
                return self.ss_slice(o, a, b, s, st, cx, node)
            if isinstance(o, XO) and o.kind == "range":
                return [(st, XO("range", *(lambda r: (r.start, r.stop, r.step))(range(*o.args)[sl])))]
            return self.throw(st, "TypeError", "object is not subscriptable", node, cx)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, SI):
            lo, hi = st.store.rng(k)
            if lo is not None and lo == hi:
                k = lo
        if isinstance(k, int):
            if isinstance(o, XO) and o.kind == "range":
                try:
                    return [(st, range(*o.args)[k])]
                except IndexError:
                    return self.throw(st, "IndexError", "index out of range", node, cx)
            if isinstance(o, SS):
                return self.ss_index(o, k, st, cx, node)
            n = self.length(o, st)
            if isinstance(o, VB):
                return self.vb_index(o, k, st, cx, node)
            if n is None:
                return self.throw(st, "TypeError", "object is not subscriptable", node, cx)
            if not -n <= k < n:
                return self.throw(st, "IndexError", "index out of range", node, cx)
            k = self.norm_index(k, n)
            if isinstance(o, (str, bytes)):
                return [(st, o[k])]
            if isinstance(o, Tup):
                return [(st, o.items[k])]
            return [(st, int_bits(o.bits[8 * k:8 * k + 8]))]
        if isinstance(k, SI):
            n = self.length(o, st)
            if isinstance(n, int):
                out = []
                for y, b in self.rng_lit(st, k, ((-n, n - 1),)):
                    if not b:
                        self.throw(y, "IndexError", "index out of range", node, cx)
                        continue
                    for z, neg in self.compare("Lt", k, 0, y, cx, node):
                        kk = iadd(k, n) if neg else k
                        if isinstance(o, str):
                            out.append((z, SS((T("tabch", o, kk),))))
                        elif isinstance(o, bytes):
                            out.append((z, int_bits(tbits(T("tabbyte", o, kk, size=1)))))
                        else:
                            out += self.case_index(o, kk, n, z, cx, node)
                return out
            return [(st, self.undecided(st, "symbolic index", node, cx, o))]
        if isinstance(k, Unk):
            return [(st, self.undecided(st, "unknown index", node, cx, o))]
        return self.throw(st, "TypeError", "indices must be integers", node, cx)

    def case_index(self, o, k, n, st, cx, node):
        """split on the value of a symbolic index into a short sequence"""
        if n > 64:
            return [(st, self.undecided(st, "symbolic index", node, cx, o))]
        out = []
        cur = [st]
        for i in range(n):
            nxt = []
            for s in cur:
                for y, b in self.equal(k, i, s, cx, node):
                    if b:
                        out.append((y, o.items[i] if isinstance(o, Tup) else int_bits(o.bits[8 * i:8 * i + 8])))
                    else:
                        nxt.append(y)
            cur = nxt
        return out

    def sym_slice(self, o, idx, st, cx, node):
        a, b, s = idx
        if isinstance(o, SS) and s is None:
            return [(st, SS((T("strslice", o, *[x if isinstance(x, (int, SI)) else repr(x) for x in (a, b)]),)))]
        n = self.length(o, st)
        if isinstance(n, int) and s is None and n <= 80:
            # split on the value of the symbolic bound
            out = []
            for pos, x in ((0, a), (1, b)):
                if isinstance(x, SI):
                    lo, hi = st.store.rng(x)
                    if lo is None or hi is None or hi - lo > 80:
                        break
                    cur = [st]
                    for i in range(lo, hi + 1):
                        nxt = []
                        for q in cur:
                            for y, eq in self.equal(x, i, q, cx, node):
                                if eq:
                                    na, nb = (i, b) if pos == 0 else (a, i)
                                    out += self.getitem(o, XO("slice", na, nb, None), y, cx, node)
                                else:
                                    nxt.append(y)
                        cur = nxt
                    return out
        return [(st, self.undecided(st, "symbolic slice", node, cx, o))]

    def vb_slice(self, o, a, b, s, st, cx, node):
        if s not in (None, 1):
            return [(st, self.undecided(st, "slice of bytes of unknown length", node, cx, o))]
        a = a or 0
        if a == 0 and b is None:
            return [(st, o)]
        first, last = o.parts[0], o.parts[-1]
        if a >= 0 and b is not None and b >= 0 and not isinstance(first, Term) and b <= len(first):
            return [(st, bslice(first, a, max(a, b)))]
        if a > 0 and b is None and not isinstance(first, Term) and a <= len(first):
            return [(st, bcat(bslice(first, a, len(first)), *[VB((p,)) if isinstance(p, Term) else p
                                                             for p in o.parts[1:]]))]
        if a < 0 and b is None and not isinstance(last, Term) and -a <= len(last):
            return [(st, bslice(last, len(last) + a, len(last)))]
        if a == 0 and b is not None and b < 0 and not isinstance(last, Term) and -b <= len(last):
            return [(st, bcat(*[VB((p,)) if isinstance(p, Term) else p for p in o.parts[:-1]],
                              bslice(last, 0, len(last) + b)))]
        return [(st, VB((T("bslice", o, a, b if b is not None else "end"),)))]

    def vb_index(self, o, k, st, cx, node):
        first = o.parts[0]
        if k >= 0 and not isinstance(first, Term) and k < len(first):
            return self.getitem(first, k, st, cx, node)
        return [(st, self.undecided(st, "index into bytes of unknown length", node, cx, o))]

    def ss_slice(self, o, a, b, s, st, cx, node):
        if s in (None, 1):
            a = a or 0
            if a == 0 and b is None:
                return [(st, o)]
            # leading constant
            if isinstance(o.parts[0], str) and a >= 0 and b is None and a <= len(o.parts[0]):
                return [(st, scat(o.parts[0][a:], *[SS((p,)) if isinstance(p, Term) else p for p in o.parts[1:]]))]
            if isinstance(o.parts[0], str) and a >= 0 and b is not None and 0 <= b <= len(o.parts[0]):
                return [(st, o.parts[0][a:b])]
            n = self.length(o, st)
            t = sterm(o)
            if isinstance(n, int):
                i0, i1, _ = slice(a, b).indices(n)
                i1 = max(i0, i1)
                if t is not None and t.kind == "hex" and i0 % 2 == 0 and i1 % 2 == 0:
                    r = bslice(t.args[0], i0 // 2, i1 // 2)
                    return [(st, mkhex(r))]
                if all(isinstance(p, str) or p.kind in ("ch", "tabch") for p in o.parts):
                    items = []
                    for p in o.parts:
                        items += list(p) if isinstance(p, str) else [SS((p,))]
                    return [(st, scat(*items[i0:i1]) if items[i0:i1] else "")]
            return [(st, SS((T("strslice", o, a, b if b is not None else "end"),)))]
        n = self.length(o, st)
        if isinstance(n, int) and all(isinstance(p, str) or p.kind in ("ch", "tabch") for p in o.parts):
            items = []
            for p in o.parts:
                items += list(p) if isinstance(p, str) else [SS((p,))]
            r = items[slice(a, b, s)]
            return [(st, scat(*r) if r else "")]
        return [(st, SS((T("strslice", o, a if a is not None else "none", b if b is not None else "none", s),)))]

    def ss_index(self, o, k, st, cx, node):
        n = self.length(o, st)
        if isinstance(n, int):
            if not -n <= k < n:
                return self.throw(st, "IndexError", "string index out of range", node, cx)
            if all(isinstance(p, str) or p.kind in ("ch", "tabch") for p in o.parts):
                items = []
                for p in o.parts:
                    items += list(p) if isinstance(p, str) else [SS((p,))]
                return [(st, items[k])]
        if isinstance(o.parts[0], str) and 0 <= k < len(o.parts[0]):
            return [(st, o.parts[0][k])]
        t = T("strslice", o, k, k + 1 if k != -1 else "end")
        out = []
        for y, b in self.equal(o, "", st, cx, node):
            if b:
                self.throw(y, "IndexError", "string index out of range", node, cx)
            elif k in (0, -1):
                out.append((y, SS((t,))))
            else:
                for z, ok in y.branch(("flag", ("longer", o, k))):
                    if ok:
                        out.append((z, SS((t,))))
                    else:
                        self.throw(z, "IndexError", "string index out of range", node, cx)
        return out

    def dict_get(self, ref, ob, k, st, cx, node, default=NotImplemented):
        # the keys are constants or references; a symbolic key is split
        if plain_key(k):
            for a, v in ob.items:
                if type(a) is type(k) and a == k or isconst(a) and isconst(k) and a == k:
                    return [(st, v)]
            if all(plain_key(a) for a, _ in ob.items):
                return self._dict_miss(ref, ob, k, st, cx, node, default)
        for a, v in ob.items:
            if same(a, k):
                return [(st, v)]
        if isinstance(k, Unk):
            st.mark(f"dictionary lookup with an unknown key at {self.where(node, cx)}")
            out = []
            for a, v in ob.items:
                out.append((st.fork(), v))
            return out + self._dict_miss(ref, ob, k, st, cx, node, default)
        r = self.dict_index(ref, ob, k, st, cx, node, default)
        if r is not None:
            return r
        out = []
        cur = [st]
        for a, v in ob.items:
            nxt = []
            for s in cur:
                for y, b in self.equal(k, a, s, cx, node):
                    if b:
                        out.append((y, v))
                    else:
                        nxt.append(y)
            cur = nxt
        for s in cur:
            out += self._dict_miss(ref, ob, k, s, cx, node, default)
        return out

    def dict_index(self, ref, ob, k, st, cx, node, default):
        """a table {symbol: its position}, looked up with a symbolic symbol"""
        if len(ob.items) < 9 or [v for _, v in ob.items] != list(range(len(ob.items))):
            return None
        keys = [a for a, _ in ob.items]
        if isinstance(k, SS):
            t = sterm(k)
            if t is None or t.kind != "ch" or not all(isinstance(a, str) and len(a) == 1 and a < "\x80" for a in keys):
                return None
            k, keys = int_bits(t.args[0].bits), [ord(a) for a in keys]
        if not isinstance(k, SI) or not all(type(a) is int and 0 <= a < 256 for a in keys):
            return None
        found = self.table_find(bytes(keys), k, st, cx, node, "find")
        if found is None:
            return None
        out = []
        for y, i in found:
            out += self._dict_miss(ref, ob, k, y, cx, node, default) if i == -1 else [(y, i)]
        return out

    def _dict_miss(self, ref, ob, k, st, cx, node, default):
        if default is not NotImplemented:
            return [(st, default)]
        if ob.default is not None:
            out = []
            from interp import dset
            for y, v in self.call(ob.default, [], {}, st, cx, node):
                o2 = y.get(ref)
                y.put(ref, DObj(dset(o2.items, k, v), o2.default), self.where(node, cx))
                out.append((y, v))
            return out
        return self.throw(st, "KeyError", k if isconst(k) else SS((T("fmt", k),)) if not isinstance(k, (Ref, Unk))
                          else "", node, cx)

    def dict_store(self, ref, ob, k, v, st, w, cx, node):
        """a key that may or may not be one of those present"""
        out = []
        cur = [st]
        for i, (a, _) in enumerate(ob.items):
            nxt = []
            for s in cur:
                for y, b in [(s, True)] if same(a, k) else self.equal(k, a, s, cx, node):
                    if b:
                        y.put(ref, DObj(ob.items[:i] + ((a, v),) + ob.items[i + 1:], ob.default), w)
                        out.append(y)
                    else:
                        nxt.append(y)
            cur = nxt
        for s in cur:
            s.put(ref, DObj(tuple(ob.items) + ((k, v),), ob.default), w)
            out.append(s)
        return out

    def setitem(self, o, k, v, st, cx, node):
        from interp import dset
        w = self.where(node, cx)
        if isinstance(o, Ref):
            ob = st.get(o)
            if isinstance(ob, DObj):
                if isinstance(k, Unk) and ob.items:
                    st.mark(f"dictionary store under a symbolic key at {w}")
                elif not plain_key(k) or not all(plain_key(a) for a, _ in ob.items):
                    return self.dict_store(o, ob, k, v, st, w, cx, node)
                st.put(o, DObj(dset(ob.items, k, v), ob.default), w)
                return [st]
            if isinstance(ob, LObj):
                if isinstance(k, int):
                    n = len(ob.items)
                    if not -n <= k < n:
                        self.throw(st, "IndexError", "assignment index out of range", node, cx)
                        return []
                    items = list(ob.items)
                    items[k] = v
                    st.put(o, LObj(items), w)
                    return [st]
                if isinstance(k, XO) and k.kind == "slice" and all(x is None or isinstance(x, int) for x in k.args):
                    out = []
                    for y, vals in self.iterate(v, st, cx, node):
                        if vals is None:
                            y.mark("slice assignment of unknown value")
                            out.append(y)
                            continue
                        items = list(y.get(o).items)
                        items[slice(*k.args)] = vals
                        y.put(o, LObj(items), w)
                        out.append(y)
                    return out
                st.mark(f"store under a symbolic index at {w}")
                st.put(o, LObj(tuple(Unk("list element", taint(v)) for _ in ob.items)), w)
                return [st]
            if isinstance(ob, BAObj):
                if isinstance(k, int) and fixed(ob.data):
                    n = len(ob.data)
                    if not -n <= k < n:
                        self.throw(st, "IndexError", "bytearray index out of range", node, cx)
                        return []
                    k = self.norm_index(k, n)
                    out = []
                    for y, b in self.to_bytes_like(Tup((v,)), st, cx, node):
                        if isinstance(b, Unk):
                            y.mark("bytearray store")
                            out.append(y)
                            continue
                        bits = list(vbits(ob.data))
                        bits[8 * k:8 * k + 8] = vbits(b)
                        y.put(o, BAObj(mkbytes(bits)), w)
                        out.append(y)
                    return out
                if isinstance(k, XO) and k.kind == "slice" and fixed(ob.data) and \
                        all(x is None or isinstance(x, int) for x in k.args):
                    i0, i1, s = slice(*k.args).indices(len(ob.data))
                    if s == 1:
                        out = []
                        for y, b in self.to_bytes_like(v, st, cx, node):
                            if fixed(b):
                                y.put(o, BAObj(bcat(bslice(ob.data, 0, i0), b, bslice(ob.data, max(i0, i1), len(ob.data)))), w)
                            else:
                                y.mark("bytearray slice store")
                            out.append(y)
                        return out
                st.mark(f"bytearray store at {w}")
                return [st]
            if isinstance(ob, Inst):
                m = self.find_attr(st, ob.cls, "__setitem__")
                if m is not None:
                    return [y for y, _ in self.call(m, [o, k, v], {}, st, cx, node)]
            self.throw(st, "TypeError", "object does not support item assignment", node, cx)
            return []
        if isinstance(o, Ext):
            st.event("unkcall", f"{o.name}[...] = ", w, self.deep_taint(Tup((k, v)), st))
            return [st]
        if isinstance(o, Unk):
            st.event("unkcall", f"{o.why}[...] = ", w, self.deep_taint(Tup((k, v)), st))
            return [st]
        self.throw(st, "TypeError", "object does not support item assignment", node, cx)
        return []

    def delitem(self, o, k, st, cx, node):
        w = self.where(node, cx)
        if isinstance(o, Ref):
            ob = st.get(o)
            if isinstance(ob, DObj):
                if not any(same(a, k) for a, _ in ob.items):
                    if isconst(k):
                        return self.throw(st, "KeyError", k, node, cx)
                    st.mark("del of a symbolic key")
                    return [(st, None)]
                st.put(o, DObj(tuple((a, v) for a, v in ob.items if not same(a, k)), ob.default), w)
                return [(st, None)]
            if isinstance(ob, LObj):
                items = list(ob.items)
                try:
                    if isinstance(k, int):
                        del items[k]
                    else:
                        del items[slice(*k.args)]
                except IndexError:
                    return self.throw(st, "IndexError", "del", node, cx)
                except (TypeError, AttributeError):
                    st.mark("del item")
                st.put(o, LObj(items), w)
                return [(st, None)]
            if isinstance(ob, BAObj) and fixed(ob.data):
                items = [bslice(ob.data, i, i + 1) for i in range(len(ob.data))]
                try:
                    if isinstance(k, int):
                        del items[k]
                    else:
                        del items[slice(*k.args)]
                except (IndexError, TypeError):
                    return self.throw(st, "IndexError", "del", node, cx)
                st.put(o, BAObj(bcat(*items) if items else b""), w)
                return [(st, None)]
        st.mark("del item")
        return [(st, None)]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, cx, node):
        if isinstance(o, Unk):
            return [(st, Unk(f"{o.why}.{name}", o.taint))]
        if isinstance(o, Ref):
            ob = st.get(o)
            if isinstance(ob, Inst):
                if name == "__class__":
                    return [(st, ob.cls)]
                if name == "__dict__":
                    return [(st, st.new(NSObj(tuple(ob.attrs.items()), o)))]
                v = self.find_attr(st, ob.cls, name)
                if isinstance(v, XO) and v.kind == "property":
                    return self.call(v.args[0], [o], {}, st, cx, node)
                if isinstance(v, XO) and v.kind == "cachedprop":
                    if name in ob.attrs:
                        return [(st, ob.attrs[name])]
                    out = []
                    for y, r in self.call(v.args[0], [o], {}, st, cx, node):
                        io = y.get(o)
                        y.put(o, Inst(io.cls, {**io.attrs, name: r}), self.where(node, cx))
                        out.append((y, r))
                    return out
                if name in ob.attrs:
                    return [(st, ob.attrs[name])]
                if v is not None or name in self._attrs_of(st, ob.cls):
                    return [(st, self.bindattr(v, o, ob.cls, st))]
                if any(isinstance(c, Ext) and c.name == "BaseException" for c in self.mro(st, ob.cls)):
                    if name in ("__cause__", "__context__", "__traceback__"):
                        return [(st, ob.attrs.get(name))]
                    if name in ("with_traceback", "add_note", "__str__", "__init__"):
                        return [(st, Bound(o, name))]
                m = self.find_attr(st, ob.cls, "__getattr__")
                if m is not None:
                    return self.call(m, [o, name], {}, st, cx, node)
                for c in self.mro(st, ob.cls):
                    if isinstance(c, Unk) or isinstance(c, Ext) and "." in c.name and \
                            not c.name.startswith(("typing.", "abc.", "enum.")):
                        return [(st, self.undecided(st, f"attribute {name} of an external base", node, cx))]
                if name in ("__init__", "__str__", "__repr__", "__eq__", "__hash__", "__setattr__", "__new__"):
                    return [(st, Bound(o, name))]
                return self.throw(st, "AttributeError", name, node, cx)
            if isinstance(ob, Cls):
                return self.class_getattr(o, ob, name, st, cx, node)
            if isinstance(ob, Mod):
                if name in ob.vars:
                    return [(st, ob.vars[name])]
                sub = ob.name + "." + name
                if sub in self.modrefs:
                    return [(st, self.modrefs[sub])]
                if name == "__dict__":
                    return [(st, st.new(NSObj(tuple((k, v) for k, v in ob.vars.items() if k.isidentifier()), o)))]
                return self.throw(st, "AttributeError", name, node, cx)
            tn = self.pytype(o, st)
            if isinstance(ob, HashObj):
                if name == "name":
                    return [(st, ob.algo)]
                if name == "digest_size":
                    return [(st, self.DIGEST.get(ob.algo, 0))]
                if name == "block_size":
                    return [(st, 128 if ob.algo in ("sha512", "sha384") else 64)]
                if name in ("update", "digest", "hexdigest", "copy"):
                    return [(st, Bound(o, name))]
                return self.throw(st, "AttributeError", name, node, cx)
            if tn in PYTYPES:
                if hasattr(PYTYPES[tn], name):
                    return [(st, Bound(o, name))]
                return self.throw(st, "AttributeError", name, node, cx)
            return [(st, Bound(o, name))]
        if isinstance(o, Ext):
            if o.name in PYTYPES and not hasattr(PYTYPES[o.name], name):
                return self.throw(st, "AttributeError", name, node, cx)
            if o.name in PYTYPES or o.name in self.pyexc:
                if name == "__name__" or name == "__qualname__":
                    return [(st, o.name)]
            return [(st, self.ext_attr(o.name, name, st))]
        if isinstance(o, XO):
            if o.kind == "super":
                return self.super_attr(o, name, st, cx, node)
            if o.kind == "cached" and name in ("cache_clear", "cache_info", "__wrapped__"):
                return [(st, Bound(o, name))]
            if o.kind == "property":
                return [(st, Bound(o, name))]
            if o.kind in ("bm", "prim", "cached", "ctxfactory", "staticmethod", "classmethod", "partial"):
                if name in ("__name__", "__qualname__", "__doc__", "__module__"):
                    f = o.args[0]
                    return [(st, getattr(f, "name", "?"))]
                if name == "__func__":
                    return [(st, o.args[0])]
                if name == "__self__" and o.kind == "bm":
                    return [(st, o.args[1])]
                if name == "__wrapped__":
                    return [(st, o.args[0])]
            return self.xo_attr(o, name, st, cx, node)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return [(st, o.name)]
            if name == "__doc__":
                return [(st, None)]
            if name == "__module__":
                return [(st, st.get(o.mod).name)]
            if name == "__defaults__":
                return [(st, Tup(o.defaults))]
            if name == "__get__":
                return [(st, Bound(o, name))]
            k = self.fattr(o, name)
            if k in st.get(o.mod).vars:
                return [(st, st.get(o.mod).vars[k])]
            if name == "__dict__":
                return [(st, self.undecided(st, "function __dict__", node, cx))]
            return self.throw(st, "AttributeError", name, node, cx)
        if isinstance(o, Tup) and o.cls is not None:
            flds = self.find_attr(st, o.cls, "_fields")
            if flds is not None and name in flds.items:
                return [(st, o.items[flds.items.index(name)])]
            if name == "_asdict":
                return [(st, Bound(o, name))]
            if name == "_replace":
                return [(st, Bound(o, name))]
            v = self.find_attr(st, o.cls, name)
            if v is not None:
                if isinstance(v, XO) and v.kind == "property":
                    return self.call(v.args[0], [o], {}, st, cx, node)
                return [(st, self.bindattr(v, o, o.cls, st))]
        if isinstance(o, Bound):
            if name in ("__name__", "__qualname__"):
                return [(st, o.name)]
            if name == "__self__":
                return [(st, o.obj)]
        tn = self.pytype(o, st)
        if isinstance(tn, str) and tn in PYTYPES:
            if name == "__class__":
                return [(st, Ext(tn))]
            if self.enums and name in ("value", "_value_") and tn in ("int", "str", "bytes"):
                return [(st, o)]
            if tn == "int" and name in ("real", "numerator"):
                return [(st, o)]
            if hasattr(PYTYPES[tn], name):
                return [(st, Bound(o, name))]
            if self.enums and tn in ("int", "str", "bytes"):          # it may be a member of an enumeration
                return [(st, self.undecided(st, f"attribute {name}", node, cx, o))]
            return self.throw(st, "AttributeError", f"'{tn}' object has no attribute '{name}'", node, cx)
        return [(st, self.undecided(st, f"attribute {name}", node, cx, o))]

    def _attrs_of(self, st, cls):
        out = set()
        for c in self.mro(st, cls):
            if isinstance(c, Ref):
                out |= set(st.get(c).attrs)
        return out

    def bindattr(self, v, obj, cls, st):
        if isinstance(v, Func):
            return XO("bm", v, obj)
        if isinstance(v, XO):
            if v.kind in ("cached", "ctxfactory"):
                return XO("bm", v, obj)
            if v.kind == "classmethod":
                return XO("bm", v.args[0], cls)
            if v.kind == "staticmethod":
                return v.args[0]
            if v.kind == "prim":
                return XO("bm", v, obj)
        return v

    def class_getattr(self, o, ob, name, st, cx, node):
        if name in ("__name__", "__qualname__"):
            return [(st, ob.name)]
        if name == "__mro__":
            return [(st, Tup(ob.mro))]
        if name == "__bases__":
            return [(st, Tup(ob.bases))]
        if name == "__module__":
            return [(st, ob.qual.rsplit(".", 1)[0])]
        if name == "__dict__":
            return [(st, st.new(DObj(tuple((k, v) for k, v in ob.attrs.items()))))]
        if name == "__members__" and "__members__" in ob.attrs:
            return [(st, st.new(DObj(tuple((st.get(m).attrs["name"], m) for m in ob.attrs["__members__"].items
                                           if isinstance(m, Ref)))))]
        for c in ob.mro:
            if isinstance(c, Ref) and name in st.get(c).attrs:
                v = st.get(c).attrs[name]
                if isinstance(v, XO):
                    if v.kind == "classmethod":
                        return [(st, XO("bm", v.args[0], o))]
                    if v.kind == "staticmethod":
                        return [(st, v.args[0])]
                return [(st, v)]
        if name == "__doc__":
            return [(st, None)]
        if name == "__annotations__":
            return [(st, st.new(DObj(())))]
        if name == "__subclasses__":
            return [(st, Bound(o, name))]
        for c in ob.mro:
            if isinstance(c, Unk) or isinstance(c, Ext) and c.name != "object":
                if isinstance(c, Ext) and c.name in PYTYPES and hasattr(PYTYPES[c.name], name):
                    return [(st, self.ext_attr(c.name, name, st))]
                if isinstance(c, Ext) and c.name in self.pyexc and hasattr(getattr(_pyb, c.name), name):
                    return [(st, self.ext_attr(c.name, name, st))]
                if not (isinstance(c, Ext) and (c.name in PYTYPES or c.name in self.pyexc)):
                    return [(st, self.undecided(st, f"attribute {name} of an external base", node, cx))]
        if hasattr(object, name):
            return [(st, self.ext_attr("object", name, st))]
        return self.throw(st, "AttributeError", name, node, cx)

    def super_attr(self, o, name, st, cx, node):
        owner, self_ = o.args
        cls = self_
        if isinstance(self_, Ref) and isinstance(st.get(self_), Inst):
            cls = st.get(self_).cls
        elif isinstance(self_, Tup) and self_.cls is not None:
            cls = self_.cls
        mro = list(self.mro(st, cls))
        rest = mro[mro.index(owner) + 1:] if owner in mro else []
        for c in rest:
            if isinstance(c, Ref) and name in st.get(c).attrs:
                v = st.get(c).attrs[name]
                if isinstance(v, XO) and v.kind == "property":
                    return self.call(v.args[0], [self_], {}, st, cx, node)
                if isinstance(v, Func) or isinstance(v, XO):
                    return [(st, self.bindattr(v, self_, cls, st))]
                return [(st, v)]
        return [(st, Bound(self_, name))]

    def fattr(self, f, name):
        """where an attribute of a function is kept: a module variable no name can denote"""
        return f"{f.qual}@{getattr(f.closure, 'id', '')}.{name}"

    def setattr(self, o, name, v, st, cx, node):
        w = self.where(node, cx)
        if isinstance(o, Ref):
            ob = st.get(o)
            if isinstance(ob, Inst):
                p = self.find_attr(st, ob.cls, name)
                if isinstance(p, XO) and p.kind == "property":
                    if len(p.args) > 1 and p.args[1] is not None:
                        return [y for y, _ in self.call(p.args[1], [o, v], {}, st, cx, node)]
                    self.throw(st, "AttributeError", "can't set attribute", node, cx)
                    return []
                m = self.find_attr(st, ob.cls, "__setattr__")
                if m is not None:
                    return [y for y, _ in self.call(m, [o, name, v], {}, st, cx, node)]
                if isinstance(ob.cls, Ref) and "frozen" in st.get(ob.cls).flags:
                    self.throw(st, "AttributeError", "cannot assign to field", node, cx)
                    return []
                st.put(o, Inst(ob.cls, {**ob.attrs, name: v}), w)
                return [st]
            if isinstance(ob, Cls):
                st.put(o, Cls(ob.name, ob.qual, ob.bases, {**ob.attrs, name: v}, ob.mro, ob.flags), w)
                return [st]
            if isinstance(ob, Mod):
                st.put(o, Mod(ob.name, {**ob.vars, name: v}), w)
                return [st]
        if isinstance(o, Func):
            m = st.get(o.mod)
            st.put(o.mod, Mod(m.name, {**m.vars, self.fattr(o, name): v}), w)
            return [st]
        if isinstance(o, (Ext, Unk)):
            st.event("unkcall", f"set attribute {name} of {o}", w, self.deep_taint(v, st))
            return [st]
        self.throw(st, "AttributeError", name, node, cx)
        return []

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, v, c, st, cx, node):
        if isinstance(c, Tup):
            out = []
            cur = [st]
            for x in c.items:
                nxt = []
                for s in cur:
                    for y, b in self.isinstance_(v, x, s, cx, node):
                        if b:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(c, XO) and c.kind == "extsub":
            c = c.args[0]
        if isinstance(v, Unk) or isinstance(c, Unk):
            return self.fork_unknown(st, "isinstance of an unknown value", cx, node)
        t = self.pytype(v, st)
        if isinstance(t, Ref) or isinstance(t, Ext):
            r = self.is_subclass(st, t, c)
            if r is None:
                return self.fork_unknown(st, "isinstance with external class", cx, node)
            return [(st, r)]
        if isinstance(c, Ext):
            n = c.name
            n = {"collections.abc.Callable": "callable", "typing.Callable": "callable"}.get(n, n)
            if n == "callable":
                return [(st, isinstance(v, (Func, Ext, Bound)) or isinstance(v, XO) and v.kind in
                         ("bm", "cached", "prim", "partial") or isinstance(v, Ref) and isinstance(st.get(v), Cls))]
            if n == "object":
                return [(st, True)]
            if n in ("types.UnionType",):
                return self.fork_unknown(st, "isinstance with a union", cx, node)
            if t == "bool" and n in ("int", "bool"):
                return [(st, True)]
            if n in PYTYPES and isinstance(t, str):
                return [(st, t == n)]
            if n == "type":
                return [(st, isinstance(v, Ref) and isinstance(st.get(v), Cls) or isinstance(v, Ext) and v.name in PYTYPES)]
            if n in ("collections.abc.Mapping", "typing.Mapping", "collections.abc.MutableMapping", "typing.Dict"):
                return [(st, t == "dict")]
            if n in ("collections.abc.Sequence", "typing.Sequence"):
                return [(st, t in ("list", "tuple", "str", "bytes", "bytearray", "range"))]
            if n in ("collections.abc.Iterable", "typing.Iterable"):
                return [(st, t in ("list", "tuple", "str", "bytes", "bytearray", "range", "dict", "set", "frozenset",
                                   "generator"))]
            if n in ("numbers.Integral", "numbers.Number", "numbers.Real"):
                return [(st, t in ("int", "bool"))]
            if n in ("collections.abc.ByteString", "typing.ByteString", "collections.abc.Buffer"):
                return [(st, t in ("bytes", "bytearray"))]
            if isinstance(t, str) and ("." in t or "." in n):
                return [(st, t == n)]
            return [(st, False)]
        if isinstance(c, Ref):
            return [(st, False)]
        return self.throw(st, "TypeError", "isinstance() arg 2 must be a type", node, cx)
