"""Sessions, symbolic inputs, comparison and reporting shared by all checks."""
import ast
import os
import sys
import time

from terms import *
from core import *
from interp import Interp, Cx
from store import sized
import randeval
from randeval import termbyid
import spec

REPO = os.environ.get("VERIF_REPO", "/repo")


class Missing(Exception):
    """an optional anchor is not there (renamed, moved): nothing to decide"""


class Session:
    def __init__(self, legacy=False, primitives=True, world=None):
        self.I = Interp(REPO, primitives=primitives, world=world)
        self.base = self.I.boot()
        self.base.legacy = legacy
        self.node = ast.parse("0").body[0]
        root = self.I.modrefs["bip38"]
        self.cx = Cx(None, None, "harness", root, "harness")
        self.primitives = primitives
        self.dirty = []              # states that calls left with older objects changed
        self.collecting = False
        self.history = None          # (state, object) to start from instead of the state after import

    def mod(self, name):
        r = self.I.modrefs.get(name)
        if r is None:
            raise Missing(name)
        return r

    def glob(self, module, *names):
        st = self.base
        v = st.get(self.mod(module)).vars
        if names[0] not in v:
            raise Missing(module + "." + names[0])
        x = v[names[0]]
        for n in names[1:]:
            r = self.I.getattr(x, n, st.fork(), self.cx, self.node)
            if not r:
                raise Missing(n)
            x = r[0][1]
        return x

    def state(self):
        return self.history[0].fork() if self.history is not None else self.base.fork()

    def note_dirty(self, oks, f, args):
        for y, _ in oks:
            if y.imprecise or y.negl:
                continue
            ch = tuple(i for i, o in y.heap.items() if i in y.base and o is not y.base[i] and not o == y.base[i])
            if ch:
                while isinstance(f, XO) and f.kind in ("bm", "staticmethod", "classmethod", "cached"):
                    args = f.args[1:2] if f.kind == "bm" else args
                    f = f.args[0]
                name = getattr(f, "name", "a call")
                obj = args[0] if args and isinstance(args[0], Ref) and args[0].id in y.base else None
                if len(self.dirty) > 400:
                    del self.dirty[100:300]
                self.dirty.append((name, y, obj, ch))
                if not self.collecting:
                    return

    def attr(self, st, obj, name):
        self.I.sinks.append([])
        r = self.I.getattr(obj, name, st, self.cx, self.node)
        self.I.sinks.pop()
        if len(r) != 1:
            raise Missing(name)
        return r[0][1]

    def call(self, f, args=(), kw=None, st=None):
        """abstract result of a call: Run"""
        st = self.state() if st is None else st
        self.I.sinks.append([])
        self.I.steps = 0
        try:
            oks = self.I.call(f, list(args), dict(kw or {}), st, self.cx, self.node)
        except TooComplex as ex:
            self.I.sinks[1:] = []
            return Run([], [], [f"analysis budget exhausted: {ex}"])
        except AnalysisBroken:
            raise
        except Exception as ex:          # a construct the interpreter does not handle
            self.I.sinks[1:] = []
            tb = ex.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            return Run([], [], [f"not analysable: {type(ex).__name__}: {ex} "
                                f"({os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno})"])
        exs = self.I.sinks.pop()
        if self.history is not None:
            oks = [x for x in oks if congruent(x[0])]
            exs = [x for x in exs if congruent(x[0])]
        if self.history is None and (self.collecting or not self.dirty):
            self.note_dirty(oks + [(y, None) for y, _, _ in exs], f, args)
        return Run(oks, exs, [])

    def exc(self, st, e):
        return self.I.exc_name(st, e)

    def exc_is(self, st, e, cls):
        return self.I.is_subclass(st, st.get(e).cls, cls)

    def site(self, f):
        """file:line of a repository function"""
        while isinstance(f, XO) and f.kind in ("bm", "staticmethod", "classmethod", "cached"):
            f = f.args[0]
        if isinstance(f, Func):
            return f"{f.file}:{f.node.lineno} ({f.qual})"
        return str(f)

    # ------------------------------------------------------------ bip38 objects
    def coin(self, st, name, networks):
        """a cryptocurrency class with these networks:
        {net: (wif prefix bytes, address prefix bytes)}"""
        ic = self.glob("bip38.cryptocurrencies", "ICryptocurrency")
        nets = {}
        for k, (w, a) in networks.items():
            nets[k] = st.new(DObj((("wif_prefix", intv(w)), ("address_prefix", intv(a)))))
        d = st.new(DObj(tuple(nets.items())))
        ico = st.get(ic)
        ref = st.new(None)
        attrs = {"NETWORKS": d}
        o = Cls(name, "harness." + name, (ic,), attrs, (ref,) + tuple(ico.mro))
        st.heap[ref.id] = o
        return ref

    def bip38(self, st, coin, network):
        B = self.glob("bip38", "BIP38")
        return self.call(B, [], {"cryptocurrency": coin} if network is None else
                         {"cryptocurrency": coin, "network": network}, st)

    def instance(self, coin_spec, network):
        """(state, instance) with everything so far shared"""
        st = self.state()
        c = self.coin(st, "AnyCoin", coin_spec)
        r = self.bip38(st, c, network)
        r.require_clean("BIP38()")
        y, b = r.oks[0]
        y.freeze()
        y.boundary = y.nref
        y.events = ()
        return y, b


class Run:
    def __init__(self, oks, exs, limits):
        self.oks, self.exs, self.limits = oks, exs, limits

    def require_clean(self, what):
        if self.limits or len(self.oks) != 1 or self.exs:
            raise Undecided(f"{what}: " + "; ".join(self.limits + [f"{len(self.oks)} outcomes, "
                                                    f"{len(self.exs)} exceptions"]))


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- inputs
PREFIX = ""                  # of the names of inputs, see history.py


def inname(name):
    return name if name.startswith(("wif_prefix", "addr_prefix")) else PREFIX + name


def inbytes(name, size):
    return tbytes(T("in", inname(name), size=size))


def instr(name):
    return SS((T("in", inname(name)),))


def inint(name):
    return iatom(T("in", inname(name)))


def intv(b):
    return int_bits(vbits(b))


def key_in_range(st, key, lo=1, hi=N - 1):
    v = intv(key)
    if isinstance(v, int):
        return
    (m, c), = v.poly
    if not st.assume(("rng", (((m[0],), 1),), ((lo, hi),)), True):
        raise AnalysisBroken("key range")


def byte_range(st, b, lo, hi):
    v = intv(b)
    (m, c), = v.poly
    st.assume(("rng", (((m[0],), 1),), ((lo, hi),)), True)


# ---------------------------------------------------------------- comparison
def norm(v, st):
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, BAObj):
            return o.data
    if isinstance(v, XO) and v.kind == "memoryview":
        return v.args[0]
    return v


def same_strings(st):
    """texts the path says are equal: one stands for all of them"""
    up = {}

    def find(x):
        while x in up:
            x = up[x]
        return x
    for f, val in st.store.flag.items():
        if val and isinstance(f, tuple) and f[0] == "streq":
            a, b = find(f[1]), find(f[2])
            if a != b:
                up[max(a, b)] = min(a, b)
        if val and isinstance(f, tuple) and (f[:2] == ("strpred", "isascii") or f[0] == "isascii") and isinstance(f[-1], SS):
            t = sterm(f[-1])
            if t is not None:                # normalization leaves ASCII alone
                for form in ("NFC", "NFD", "NFKC", "NFKD"):
                    a, b = find(t.id), find(sterm(nfc(f[-1], form)).id)
                    if a != b:
                        up[max(a, b)] = min(a, b)
    return {("t", x): termbyid(find(x)) for x in up}


def congruent(st):
    """False when the path needs equal terms to differ"""
    s = st.store
    if not s.neq:
        return True
    memo = same_strings(st)
    return all(any(_deepbits(diffs, s, memo)) for diffs in s.neq)


def equal(I, v, want, st):
    """True / False / None (not decided)"""
    v = norm(v, st)
    r = equal1(I, v, want, st)
    memo = same_strings(st)
    if r is not True and (memo or st.store.subst or any(len(k) == 1 and len(k[0][0]) == 1 and
                                                        k[0][0][0].kind == "len" for k in st.store.iv)):
        r = equal1(I, deepnorm(v, st.store, memo), deepnorm(want, st.store, memo), st)
    if r is not True and comparable(v, want):
        # normal forms differ: tell them apart on satisfying assignments
        d = randeval.compare(st, v, want)
        if d is not None:
            return False if d else None
    return r


def comparable(v, want):
    return not isinstance(v, (Unk, Ref)) and not isinstance(want, (Unk, Ref)) and (
        isbytes(v) and isbytes(want) or isstr(v) and isstr(want) or isinstance(v, (int, SI)) and
        isinstance(want, (int, SI)) and not isinstance(v, bool) and not isinstance(want, bool))


def deepnorm(v, store, memo):
    """the value with the path facts substituted everywhere in it"""
    if isinstance(v, BV):
        k = ("v", v)
        if k not in memo:
            memo[k] = mkbytes(_deepbits(v.bits, store, memo))
        return memo[k]
    if isinstance(v, VB):
        n = sized(v, store)
        if not isinstance(n, VB):
            return deepnorm(n, store, memo)
        out = []
        for p in n.parts:
            p = deepnorm(p, store, memo)
            out.append(VB((p,)) if isinstance(p, Term) and p.size is None else tbytes(p) if isinstance(p, Term) else p)
        return bcat(*out)
    if isinstance(v, SS):
        out = []
        for p in v.parts:
            p = deepnorm(p, store, memo)
            out.append(SS((p,)) if isinstance(p, Term) else p)
        return scat(*out)
    if isinstance(v, SI):
        if v.bits is not None:
            return int_bits(_deepbits(v.bits, store, memo))
        r = 0
        for m, c in v.poly:
            x = c
            for t in m:
                n = deepnorm(t, store, memo)
                x = imul(x, n if isinstance(n, (int, SI)) else iatom(n))
            r = iadd_poly(r, x)
        return r
    if isinstance(v, Tup):
        return Tup([deepnorm(x, store, memo) for x in v.items], v.cls)
    if isinstance(v, tuple):
        return tuple(deepnorm(x, store, memo) for x in v)
    if isinstance(v, BitTuple):
        return BitTuple(_deepbits(v.bits, store, memo))
    if isinstance(v, BitE):
        return BitE(_deepbits((v.b,), store, memo)[0])
    if isinstance(v, Term):
        k = ("t", v.id)
        if k in memo:
            return memo[k]
        if v.kind in ("in", "urandom", "dec", "decbad", "ecbase", "int"):
            memo[k] = v
            return v
        memo[k] = v          # facts may be cyclic (x = h(x)): inside itself a term stays as it is
        if v.kind == "ecpt":
            base, key = v.args
            d = {}
            for m, c in key:
                x = c
                for t in m:
                    n = deepnorm(t, store, memo)
                    x = imul(x, n if isinstance(n, (int, SI)) else iatom(n))
                for mm, cc in modpoly(x, N).items():
                    d[mm] = (d.get(mm, 0) + cc) % N
            r = ecpt(deepnorm(base, store, memo) if isinstance(base, Term) else base,
                     {m: c for m, c in d.items() if c})
        elif v.kind == "ubits":
            r = int_bits(_deepbits(v.args[0].bits, store, memo))
            if isinstance(r, SI) and len(r.poly) == 1 and len(r.poly[0][0]) == 1 and r.poly[0][1] == 1:
                r = r.poly[0][0][0]
        else:
            args = tuple(deepnorm(a, store, memo) if not isinstance(a, (int, str, bytes, type(None), float)) else a
                         for a in v.args)
            r = T(v.kind, *args, size=v.size)
            if v.kind in ("aesenc", "aesdec") and isinstance(args[1], BV):
                w = whole(args[1])
                if w is not None and w.kind == ("aesdec" if v.kind == "aesenc" else "aesenc") and w.args[0] == args[0]:
                    w2 = whole(w.args[1])
                    r = w2 if w2 is not None else r
        memo[k] = r
        return r
    return v


def _deepbits(bits, store, memo):
    out = []
    for b in store.nbits(bits):
        if b > 1:
            k = ("b", b)
            if k not in memo:
                r = 0
                for a in bset(b):
                    if a == 0:
                        r = bxor(r, 1)
                        continue
                    t, p = atom(a)
                    n = deepnorm(t, store, memo)
                    if isinstance(n, Term):
                        r = bxor(r, atom_bit(n, p))
                    else:
                        r = bxor(r, atom_bit(t, p))
                memo[k] = r
            b = memo[k]
        out.append(b)
    return tuple(out)


def small_mods(v, st):
    """x mod c is x - q*c where the path leaves x in [q*c, q*c + c)"""
    if not isinstance(v, SI) or v.bits is not None:
        return v
    r = 0
    for m, c in v.poly:
        x = c
        for t in m:
            n = iatom(t)
            if t.kind == "mod":
                lo, hi = st.store.rng(t.args[0])
                if lo is not None and hi is not None and lo // t.args[1] == hi // t.args[1]:
                    n = isub(small_mods(t.args[0], st), lo // t.args[1] * t.args[1])
            x = imul(x, n)
        r = iadd_poly(r, x)
    return r


def equal1(I, v, want, st):
    if isinstance(v, Unk) or isinstance(want, Unk):
        return None
    if same(v, want):
        return True
    if isbytes(want):
        if not isbytes(v):
            return False
        if fixed(v) and fixed(want):
            if len(v) != len(want):
                return False
            a, b = st.store.nbits(vbits(v)), st.store.nbits(vbits(want))
            if a == b:
                return True
            # canonical contents of nested values may need the facts too
            return None if noncanon(v) or noncanon(want) else False
        return None if noncanon(v) or noncanon(want) else False
    if isinstance(want, bool) or want is None:
        return v is want
    if isinstance(want, (int, SI)):
        if isinstance(v, bool) or not isinstance(v, (int, SI)):
            return False
        d = isub(small_mods(v, st), small_mods(want, st))
        if d == 0:
            return True
        lo, hi = st.store.rng(d)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        if lo == hi == 0:
            return True
        a, b = I.bits_of(v, st), I.bits_of(want, st)
        if a is not None and b is not None:
            a, b = st.store.nbits(a), st.store.nbits(b)
            n = max(len(a), len(b))
            if (0,) * (n - len(a)) + tuple(a) == (0,) * (n - len(b)) + tuple(b):
                return True
        return None if noncanon(v) or noncanon(want) else False
    if isstr(want):
        if not isstr(v):
            return False
        a, b = strparts(v), strparts(want)
        if len(a) == len(b):
            r = True
            for x, y in zip(a, b):
                if isinstance(x, Term) and isinstance(y, Term) and x.kind == y.kind == "hex":
                    q = equal1(I, x.args[0], y.args[0], st)
                elif isinstance(x, Term) and isinstance(y, Term) and x.kind == y.kind == "b58" \
                        and x.args[0] == y.args[0]:
                    q = equal1(I, x.args[1], y.args[1], st)
                else:
                    q = same(x, y)
                    if not q and (noncanon(x) or noncanon(y)):
                        q = None
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        return None if noncanon(v) or noncanon(want) else False
    if isinstance(want, Tup):
        if isinstance(v, Ref) and isinstance(st.get(v), LObj):
            return False
        if not isinstance(v, Tup) or len(v.items) != len(want.items):
            return False
        r = True
        for x, y in zip(v.items, want.items):
            q = equal1(I, x, y, st)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    return False


def strparts(v):
    return v.parts if isinstance(v, SS) else ((v,) if v != "" else ())


# operators whose normal form is complete: two different normal forms over
# these denote different functions (or coincide with negligible probability)
CANON = {"in", "sha256", "ripemd160", "scrypt", "aesenc", "aesdec", "urandom", "b58", "utf8", "normalize", "hex",
         "ecpt", "ecx", "ecy", "ecbase", "dec", "mod", "sha512", "sha1", "md5", "decodeutf8", "prod", "ubits"}


def noncanon(v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Term):
        if v.id in seen:
            return False
        seen.add(v.id)
        if v.kind not in CANON:
            return v.kind
        if v.kind == "mod" and v.args[1] != N:
            return v.kind
        for a in v.args:
            r = noncanon(a, seen)
            if r:
                return r
        return False
    if isinstance(v, (BV, BitTuple)):
        for b in set(v.bits):
            if b > 1:
                for a in bset(b):
                    if a:
                        r = noncanon(atom(a)[0], seen)
                        if r:
                            return r
        return False
    if isinstance(v, BitE):
        return noncanon(BitTuple((v.b,)), seen)
    if isinstance(v, (VB, SS)):
        return next((r for r in (noncanon(p, seen) for p in v.parts) if r), False)
    if isinstance(v, SI):
        return next((r for r in (noncanon(t, seen) for m, _ in v.poly for t in m) if r), False)
    if isinstance(v, (tuple, list)):
        return next((r for r in (noncanon(t, seen) for t in v) if r), False)
    if isinstance(v, Tup):
        return noncanon(v.items, seen)
    if isinstance(v, Unk):
        return "unknown"
    return False


def getdict(st, v):
    """{key: value} of a returned dictionary, or None"""
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, DObj):
            return dict(o.items)
    return None


def facts(st):
    out = []
    for lit, val in st.lits:
        k = lit[0]
        if k == "rng":
            s = f"{show(SI(lit[1]))} in {lit[2]}"
        elif k == "eqbits":
            s = "equality of " + " , ".join(showbit(d) for d in lit[1][:2])
        elif k == "in":
            s = "byte in " + str(sorted(lit[2])[:8])
        else:
            s = str(tuple(show(x) if isinstance(x, (Term, SS, BV, SI)) else x for x in lit[1:]))
        out.append(("" if val else "not ") + s[:220])
    return out


# ---------------------------------------------------------------- report
class Enough(Exception):
    """many violations found: nothing more to learn"""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.proved = 0
        self.violations = []
        self.undecided = []
        self.known = []
        self.sessions = []
        self.samples = []
        self.rules = set()
        self.tag = ""
        self.stop = None
        self.world = None

    def session(self, **kw):
        if self.world:
            kw = {**kw, "world": self.world}
        for s, k in self.sessions:
            if k == kw:
                return s
        s = Session(**kw)
        self.sessions.append((s, kw))
        return s

    def tick(self):
        if self.stop is not None and time.time() > self.stop:
            raise Enough()

    def ok(self, name, n=1):
        self.tick()
        self.proved += n
        if len(self.samples) < 40:
            self.samples.append(name)

    def bad(self, name, where, msg, key=None):
        name = self.tag + name
        self.violations.append(dict(obligation=name, where=where, detail=msg, key=key or name))
        if len(self.violations) >= 60:
            raise Enough()

    def und(self, name, why):
        self.tick()
        self.undecided.append(f"{self.tag}{name}: {why}")

    def expect(self, s, name, st, v, want, where=None):
        """obligation: value v equals want in state st"""
        if st.imprecise:
            self.und(name, "; ".join(st.imprecise))
            return False
        q = equal(s.I, v, want, st)
        if q is True:
            self.ok(name)
            return True
        if q is None:
            self.und(name, f"cannot relate {show(v)[:200]} to {show(want)[:200]}")
            return False
        self.bad(name, where or st.ret, f"got {show(norm(v, st))[:1500]}\nexpected {show(want)[:1500]}\n"
                 f"difference: {diff(v, want, st)}\non the path: {'; '.join(facts(st)) or 'every path'}")
        return False


def diff(v, want, st):
    v = norm(v, st)
    if isinstance(v, SS) and isinstance(want, SS) and len(v.parts) == len(want.parts) == 1 and \
            v.parts[0].kind == want.parts[0].kind and v.parts[0].kind in ("b58", "hex"):
        if v.parts[0].kind == "b58" and v.parts[0].args[0] != want.parts[0].args[0]:
            return "different alphabets"
        return diff(v.parts[0].args[-1], want.parts[0].args[-1], st)
    if fixed(v) and fixed(want):
        if len(v) != len(want):
            return f"{len(v)} bytes instead of {len(want)}"
        a, b = st.store.nbits(vbits(v)), st.store.nbits(vbits(want))
        bad = sorted({i // 8 for i in range(len(a)) if a[i] != b[i]})
        return f"byte(s) {bad[0]}..{bad[-1]} of {len(v)}" if bad else "none"
    if type(v) is not type(want):
        return f"kind of value ({type(v).__name__} instead of {type(want).__name__})"
    return "value"
