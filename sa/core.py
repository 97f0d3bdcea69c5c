"""Abstract states, heap objects and exact joins."""
from terms import *
from store import Store, Infeasible, build

N_RANGE = (1, N - 1)


class AnalysisBroken(Exception):
    """the analysis could not be carried out at all (vanished anchor, ...)"""


class TooComplex(Exception):
    """an analysis budget was exhausted; the obligation stays undecided"""


# ---------------------------------------------------------------- heap objects
class HObj:
    __slots__ = ("_refs",)               # heap objects are immutable: put() replaces them

    def _k(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return type(o) is type(self) and o._k() == self._k()

    __hash__ = None


class LObj(HObj):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class DObj(HObj):
    __slots__ = ("items", "default")

    def __init__(self, items, default=None):
        self.items = tuple(items)
        self.default = default


class NSObj(DObj):
    """the namespace of an instance or a module as a dictionary"""
    __slots__ = ("owner",)

    def __init__(self, items, owner):
        super().__init__(items)
        self.owner = owner


class SetObj(HObj):
    __slots__ = ("items", "frozen")

    def __init__(self, items, frozen=False):
        self.items = tuple(items)
        self.frozen = frozen


class BAObj(HObj):
    __slots__ = ("data",)

    def __init__(self, data):
        self.data = data


class HashObj(HObj):
    __slots__ = ("algo", "data")

    def __init__(self, algo, data):
        self.algo, self.data = algo, data


class IterObj(HObj):
    __slots__ = ("items", "pos")

    def __init__(self, items, pos=0):
        self.items, self.pos = tuple(items), pos


class EndlessObj(HObj):
    """itertools.cycle / count / repeat without a limit"""
    __slots__ = ("kind", "items", "pos")

    def __init__(self, kind, items, pos=0):
        self.kind, self.items, self.pos = kind, tuple(items), pos

    def at(self, i):
        if self.kind == "count":
            from terms import iadd, imul
            return iadd(self.items[0], imul(self.items[1], i))
        return self.items[i % len(self.items)]


class Inst(HObj):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Cls(HObj):
    __slots__ = ("name", "qual", "bases", "attrs", "mro", "flags")

    def __init__(self, name, qual, bases, attrs, mro, flags=()):
        self.name, self.qual, self.bases, self.attrs, self.mro, self.flags = name, qual, bases, attrs, mro, flags


class Mod(HObj):
    __slots__ = ("name", "vars")

    def __init__(self, name, vars):
        self.name, self.vars = name, vars


class Frame(HObj):
    __slots__ = ("vars", "closure", "mod", "func")

    def __init__(self, vars, closure, mod, func):
        self.vars, self.closure, self.mod, self.func = vars, closure, mod, func


class Func:
    """repository function (immutable value)"""
    __slots__ = ("node", "name", "qual", "mod", "closure", "defaults", "kwdefaults", "owner", "isgen",
                 "locals", "globals", "nonlocals", "file", "h")

    def __init__(self, node, name, qual, mod, closure, defaults, kwdefaults, owner, info, file):
        self.node, self.name, self.qual, self.mod, self.closure = node, name, qual, mod, closure
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.isgen, self.locals, self.globals, self.nonlocals = info
        self.file = file
        self.h = hash(("Func", id(node), closure, owner))

    def with_owner(self, owner):
        return Func(self.node, self.name, self.qual, self.mod, self.closure, self.defaults, self.kwdefaults,
                    owner, (self.isgen, self.locals, self.globals, self.nonlocals), self.file)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.closure == self.closure and \
            o.owner == self.owner and o.defaults == self.defaults and o.kwdefaults == self.kwdefaults

    def __repr__(self):
        return f"<function {self.qual}>"


class State:
    boot = None                  # while the package is imported with settings of its environment: the answer to tests
    __slots__ = ("base", "heap", "nref", "lits", "store", "events", "imprecise", "draws", "negl", "boundary",
                 "legacy", "depth", "ret")

    def __init__(self):
        self.base = {}
        self.heap = {}
        self.nref = 1
        self.lits = ()
        self.store = Store()
        self.events = ()
        self.imprecise = ()
        self.draws = 0
        self.negl = False
        self.boundary = 0
        self.legacy = False
        self.depth = 0
        self.ret = None

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.nref = self.nref
        s.lits = self.lits
        s.store = self.store
        s.events = self.events
        s.imprecise = self.imprecise
        s.draws = self.draws
        s.negl = self.negl
        s.boundary = self.boundary
        s.legacy = self.legacy
        s.depth = self.depth
        s.ret = self.ret
        return s

    def freeze(self):
        """make the current heap the shared base"""
        self.base = {**self.base, **self.heap}
        self.heap = {}

    def get(self, ref):
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id]
        return o

    def new(self, obj):
        r = Ref(self.nref)
        self.nref += 1
        self.heap[r.id] = obj
        return r

    def put(self, ref, obj, where=None):
        if ref.id < self.boundary and not isinstance(obj, Frame):
            old = self.get(ref)
            if not (old == obj):
                self.event("write", self.describe(ref, old, obj), where, _changed(old, obj))
        cur = self.heap.get(ref.id)
        if type(cur) is NSObj and isinstance(obj, DObj):
            obj = NSObj(obj.items, cur.owner)
            o = self.get(cur.owner)
            new = {k: v for k, v in obj.items if isinstance(k, str)}
            if isinstance(o, Inst):
                self.put(cur.owner, Inst(o.cls, new), where)
            elif isinstance(o, Mod):
                self.put(cur.owner, Mod(o.name, {**{k: v for k, v in o.vars.items() if not k.isidentifier()}, **new}), where)
        self.heap[ref.id] = obj

    def describe(self, ref, old, new):
        if isinstance(new, Mod):
            ch = [k for k in new.vars if k not in old.vars or old.vars[k] != new.vars[k]]
            return f"module {new.name} global {', '.join(ch)}"
        if isinstance(new, Cls):
            ch = [k for k in new.attrs if k not in old.attrs or old.attrs[k] != new.attrs[k]]
            return f"class {new.qual} attribute {', '.join(ch)}"
        if isinstance(new, Inst):
            ch = [k for k in new.attrs if k not in old.attrs or old.attrs[k] != new.attrs[k]] + \
                 [k for k in old.attrs if k not in new.attrs]
            c = new.cls
            cn = self.get(c).qual if isinstance(c, Ref) else str(c)
            return f"instance of {cn}, attribute {', '.join(ch)}"
        return {"DObj": "a shared dictionary", "LObj": "a shared list", "SetObj": "a shared set",
                "BAObj": "a shared bytearray", "HashObj": "a shared hash object",
                "IterObj": "a shared iterator", "EndlessObj": "a shared iterator"}.get(
                    type(new).__name__, type(new).__name__)

    def event(self, kind, *data):
        e = (kind,) + data
        self.events = self.events + (e,)

    def mark(self, why):
        """from here on this state over-approximates: nothing found in it is
        reported, it only counts as undecided"""
        if why not in self.imprecise and len(self.imprecise) < 6:
            self.imprecise = self.imprecise + (why,)

    def alloc_list(self, items):
        return self.new(LObj(items))

    # ------------------------------------------------------------ branching
    def assume(self, lit, val):
        """returns False when infeasible"""
        if lit[0] == "eqbits":
            lit = ("eqbits", zero_parts(lit[1]))
        v = self.store.evaluate(lit)
        if v is not None:
            return v == val
        s = self.store.copy()
        try:
            s.assume(lit, val)
        except Infeasible:
            return False
        self.store = s
        self.lits = self.lits + ((lit, val),)
        if lit[0] == "rng" and not self.negl:
            if negligible(s, lit[1]):
                self.negl = True
        return True

    def branch(self, lit):
        if lit[0] == "eqbits":
            lit = ("eqbits", zero_parts(lit[1]))
        v = self.store.evaluate(lit)
        if v is not None:
            return [(self, v)]
        if lit[0] == "flag" and vague(lit[1]):
            self.mark("branch on a text of which something is unknown")
        a, b = self.fork(), self.fork()
        out = []
        if a.assume(lit, True):
            out.append((a, True))
        if b.assume(lit, False):
            out.append((b, False))
        if State.boot is not None and len(out) == 2:     # one answer at a time (history.worlds asks for the other)
            return out[:1] if State.boot else out[1:]
        return out


def _changed(old, new):
    """the values that a write introduced"""
    out = []
    for s in ("vars", "attrs"):
        if hasattr(new, s) and isinstance(getattr(new, s), dict):
            o, n = getattr(old, s), getattr(new, s)
            out += [v for k, v in n.items() if k not in o or o[k] != v]
    if hasattr(new, "items") and isinstance(new.items, tuple):
        out += [x for x in new.items if x not in old.items]
    if isinstance(new, BAObj):
        out.append(new.data)
    return Tup(out)


HASHLIKE = ("sha256", "scrypt", "hmac", "urandom", "sha512", "pbkdf2")


def negligible(store, key):
    """a fact about a hash output that excludes the whole range of valid
    scalars has probability below 2^-120"""
    if len(key) != 1 or len(key[0][0]) != 1 or key[0][1] != 1:
        return False
    t = key[0][0][0]
    if t.kind == "ubits":
        bits = t.args[0].bits
        if len(bits) < 250:
            return False
        for b in bits:
            for a in bset(b):
                if a and atom(a)[0].kind not in HASHLIKE:
                    return False
    elif t.kind not in HASHLIKE or t.size != 32:
        return False
    for l, h in store.key_ivs(key):
        lo = 0 if l is None else l
        hi = (1 << 256) if h is None else h
        if max(lo, N_RANGE[0]) <= min(hi, N_RANGE[1]):
            return False
    return True


# ---------------------------------------------------------------- reachability
def refs_in(v, out):
    if isinstance(v, Ref):
        out.append(v.id)
    elif isinstance(v, (tuple, list)):
        for x in v:
            refs_in(x, out)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_in(x, out)
    elif isinstance(v, XO):
        for x in v.args:
            refs_in(x, out)
    elif isinstance(v, Bound):
        refs_in(v.obj, out)
    elif isinstance(v, Func):
        if v.closure is not None:
            out.append(v.closure.id)
        refs_in(v.defaults, out)
        if v.kwdefaults:
            refs_in(tuple(x for _, x in v.kwdefaults), out)
        if isinstance(v.owner, Ref):
            out.append(v.owner.id)
    elif isinstance(v, dict):
        for k, x in v.items():
            refs_in(k, out)
            refs_in(x, out)
    elif isinstance(v, HObj):
        out += obj_refs(v)
    elif isinstance(v, Term):
        for a in v.args:
            if isinstance(a, (Ref, Tup, XO, Bound)):
                refs_in(a, out)


def obj_refs(o):
    try:
        return o._refs
    except AttributeError:
        out = []
        for s in o.__slots__:
            refs_in(getattr(o, s), out)
        o._refs = r = tuple(set(out))
        return r


def gc(st, entry, val):
    """drop objects allocated since `entry` that nothing can reach any more"""
    if st.nref == entry:
        return
    todo = []
    refs_in(val, todo)
    for i, o in st.heap.items():
        if i < entry:
            todo += obj_refs(o)
    live = set()
    while todo:
        i = todo.pop()
        if i in live or i < entry:
            continue
        o = st.heap.get(i)
        if o is None:
            continue
        live.add(i)
        todo += obj_refs(o)
    for i in [i for i in st.heap if i >= entry and i not in live]:
        del st.heap[i]
    st.nref = max([entry - 1] + list(live)) + 1


def same(a, b):
    if type(a) is not type(b):
        return False
    return a == b


def join(results):
    """exact join of (state, value) pairs: two states that agree on everything
    and whose path facts differ only in one complementary literal are one."""
    if len(results) < 2:
        return results
    out = list(results)
    changed = True
    while changed:
        changed = False
        i = 0
        while i < len(out):
            j = i + 1
            while j < len(out):
                m = _merge(out[i], out[j])
                if m is not None:
                    out[i] = m
                    del out[j]
                    changed = True
                else:
                    j += 1
            i += 1
    return out


def _merge(x, y):
    a, va = x
    b, vb = y
    if a.nref != b.nref or a.draws != b.draws or a.imprecise != b.imprecise or len(a.heap) != len(b.heap):
        return None
    d = set(a.lits) ^ set(b.lits)
    if len(d) == 1:
        # one is weaker: the weaker one covers both
        pass
    elif len(d) == 2:
        (l1, v1), (l2, v2) = d
        if l1 != l2 or v1 == v2:
            return None
    elif d:
        return None
    if not same(va, vb) or a.events != b.events or a.heap != b.heap or a.negl != b.negl:
        return None
    common = set(a.lits) & set(b.lits)
    m = a.fork()
    m.lits = tuple(l for l in a.lits if l in common)
    m.store = build(m.lits)
    return (m, va)
