"""Abstract interpreter over the Python syntax tree of /repo/bip38.

Every expression maps a state to a list of (state, value); statements map a
state to a list of (state, control).  Exceptional outcomes go to the innermost
sink.  Branches whose condition the path facts decide are not split; the
others are split and re-joined exactly (core.join)."""
import ast
import os
import builtins as _pyb

from terms import *
from core import *
from store import iv_not
from builtin_models import Models, isconst, isint

NORMAL = None
MAX_STEPS = 6_000_000
MAX_LOOP = 3000


class Cx:
    __slots__ = ("frame", "func", "file", "mod", "qual", "cls", "hook")

    def __init__(self, frame, func, file, mod, qual):
        self.hook = None           # what runs at a yield: the body of the with statement
        self.frame, self.func, self.file, self.mod, self.qual = frame, func, file, mod, qual


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)


PYEXC = {n for n, v in vars(_pyb).items() if isinstance(v, type) and issubclass(v, BaseException)}

IO_MODEL = '''
class BytesIO:
    def __init__(self, initial_bytes=b""):
        self._data = bytes(initial_bytes)
        self._at = 0

    def read(self, size=-1):
        start, size_of = self._at, len(self._data)
        end = size_of if size is None or size < 0 else start + size
        if end >= size_of:
            end = size_of
        self._at = end if end > start else start
        return self._data[start:end]

    read1 = read

    def write(self, data):
        data = bytes(data)
        self._data = self._data[:self._at] + data + self._data[self._at + len(data):]
        self._at += len(data)
        return len(data)

    def getvalue(self):
        return self._data

    def getbuffer(self):
        return memoryview(self._data)

    def tell(self):
        return self._at

    def seek(self, offset, whence=0):
        self._at = offset if whence == 0 else offset + (self._at if whence == 1 else len(self._data))
        return self._at

    def close(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None
'''

EXT_BASES = {
    "ecdsa.keys.MalformedPointError": "AssertionError",
    "ecdsa.errors.MalformedPointError": "AssertionError",
    "ecdsa.keys.BadSignatureError": "AssertionError",
    "ecdsa.curves.UnknownCurveError": "Exception",
    "scrypt.error": "Exception",
    "binascii.Error": "ValueError",
    "struct.error": "Exception",
    "ecdsa.ecdsa.InvalidPointError": "RuntimeError",
}

EXT_ALIAS = {
    "ecdsa.SigningKey": "ecdsa.keys.SigningKey",
    "ecdsa.VerifyingKey": "ecdsa.keys.VerifyingKey",
    "ecdsa.MalformedPointError": "ecdsa.errors.MalformedPointError",
    "ecdsa.keys.MalformedPointError": "ecdsa.errors.MalformedPointError",
    "ecdsa.ellipticcurve.MalformedPointError": "ecdsa.errors.MalformedPointError",
    "ecdsa.SECP256k1": "ecdsa.curves.SECP256k1",
    "ecdsa.keys.PointJacobi": "ecdsa.ellipticcurve.PointJacobi",
    "builtins": "builtins",
}


def scan_locals(node):
    """names bound in a function body (its locals), excluding nested scopes"""
    names, glob, nonl = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    target(s.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
    for s in body:
        walk(s)
    return gen[0], frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl)


class Interp(Models):
    def __init__(self, repo="/repo", package="bip38", primitives=True, world=None):
        self.repo, self.package = repo, package
        self.modules = {}          # name -> Module
        self.modrefs = {}          # name -> Ref
        self.sinks = [[]]
        self.steps = 0
        self.calls = set()         # functions analysed
        self.ncalls = 0
        self.nbranches = 0
        self.scan_cache = {}
        self.primitives = primitives
        self.words = False
        self.prims = {}
        self.files = []
        self.cachefuncs = set()
        self.booting = False
        self.enums = False         # has the package enumerations? (their members are plain values here)
        self.world = dict(world or {})       # variables of the environment that are set when the package is imported
        self.envread = set()                 # those that were asked for
        self.init_models()
        self.load()

    # ------------------------------------------------------------ loading
    def load(self):
        root = os.path.join(self.repo, self.package)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} is gone")
        for top, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(top, f)
                    rel = os.path.relpath(path, self.repo)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    m = Module(name, rel, src)
                    m.ispkg = f == "__init__.py"
                    self.modules[name] = m
                    self.files.append(rel)

        if any("BytesIO" in m.src for m in self.modules.values()):
            m = Module("$io", "<model of io>", IO_MODEL)
            m.ispkg = False
            self.modules["$io"] = m

    def boot(self):
        """interpret all module bodies; returns the base state"""
        st = State()
        self.booting = True
        State.boot = self.world.get("") if self.world else None
        try:
            for name in sorted(self.modules):
                st = self.import_module(name, st)
        finally:
            self.booting = False
            State.boot = None
        if self.world and st is not None:
            self.sinks[0].clear()            # an import that fails with these settings gives no result
        if self.sinks[0]:
            st2, e, w = self.sinks[0][0]
            raise AnalysisBroken(f"module initialisation raises {self.exc_name(st2, e)} at {w}")
        st.freeze()
        st.boundary = st.nref
        st.events = ()
        self.install_primitives(st)
        return st

    def import_module(self, name, st):
        if name in self.modrefs:
            return st
        if "." in name:
            st = self.import_module(name.rsplit(".", 1)[0], st)
            if name in self.modrefs:
                return st
        m = self.modules[name]
        ref = st.new(Mod(name, {"__name__": name, "__file__": m.path}))
        self.modrefs[name] = ref
        cx = Cx(None, None, m.path, ref, name)
        res = self.exec_block(m.tree.body, st, cx)
        if not res:
            if self.sinks[-1]:
                st2, e, w = self.sinks[-1][0]
                raise AnalysisBroken(f"import of {name} raises {self.exc_name(st2, e)} at {w}")
            raise AnalysisBroken(f"import of {name} does not complete")
        if len(res) > 1:
            res[0][0].mark(f"module {name} initialises in several ways")
        st = res[0][0]
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            p = st.get(self.modrefs[par])
            if leaf not in p.vars:
                st.put(self.modrefs[par], Mod(p.name, {**p.vars, leaf: ref}))
        return st

    # ------------------------------------------------------------ errors
    def where(self, node, cx):
        return f"{cx.file}:{getattr(node, 'lineno', '?')} ({cx.qual})"

    def throw(self, st, cls, msg="", node=None, cx=None):
        """raise a builtin/external exception; no normal outcome"""
        if isinstance(cls, str):
            cls = Ext(cls)
        args = Tup((msg,)) if msg != "" else Tup(())
        e = st.new(Inst(cls, {"args": args}))
        self.sinks[-1].append((st, e, self.where(node, cx) if cx else "?"))
        return []

    def raise_value(self, st, e, node, cx):
        self.sinks[-1].append((st, e, self.where(node, cx)))
        return []

    def exc_name(self, st, e):
        o = st.get(e)
        return self.cls_name(st, o.cls)

    def cls_name(self, st, c):
        if isinstance(c, Ref):
            return st.get(c).name
        return c.name if isinstance(c, Ext) else str(c)

    def mro(self, st, c):
        if isinstance(c, Ref):
            o = st.get(c)
            if isinstance(o, Cls):
                return o.mro
            return (c,)
        if isinstance(c, Ext):
            n = c.name
            if n in PYEXC:
                return tuple(Ext(k.__name__) for k in getattr(_pyb, n).__mro__)
            if n in EXT_BASES:
                return (c,) + self.mro(st, Ext(EXT_BASES[n]))
            if n == "bool":
                return (c, Ext("int"), Ext("object"))
            return (c, Ext("object"))
        return (c,)

    def is_subclass(self, st, c, d):
        """True / False / None"""
        if isinstance(d, Unk) or isinstance(c, Unk):
            return None
        m = self.mro(st, c)
        if d in m:
            return True
        if isinstance(d, Ext) and (d.name == "object" or d.name == "typing.Any"):
            return True
        for x in m:
            if isinstance(x, Unk):
                return None
            if isinstance(x, Ext) and "." in x.name and x.name not in EXT_BASES and \
                    not x.name.startswith(("typing.", "abc.", "enum.", "unittest.")):
                if isinstance(d, Ext) and "." not in d.name:
                    return None
        return False

    # ------------------------------------------------------------ names
    def lookup(self, name, st, cx, node):
        f = cx.frame
        first = True
        func = cx.func
        while f is not None:
            fo = st.get(f)
            if name in fo.vars:
                return [(st, fo.vars[name])]
            if first and fo.func is not None and not isinstance(fo.func, str) and \
                    name in fo.func.locals:
                return self.throw(st, "UnboundLocalError", name, node, cx)
            first = False
            f = fo.closure
        m = st.get(cx.mod)
        if name in m.vars:
            return [(st, m.vars[name])]
        if name in self.builtin_names:
            return [(st, self.builtin_names[name])]
        sub = m.name + "." + name
        if sub in self.modrefs:
            return [(st, self.modrefs[sub])]
        return self.throw(st, "NameError", name, node, cx)

    def bind(self, name, val, st, cx, node=None):
        if cx.frame is None:
            m = st.get(cx.mod)
            st.put(cx.mod, Mod(m.name, {**m.vars, name: val}), self.where(node, cx))
            return
        fo = st.get(cx.frame)
        fn = fo.func
        if isinstance(fn, str):
            fn = None
        if fn is not None and name in fn.globals:
            m = st.get(cx.mod)
            st.put(cx.mod, Mod(m.name, {**m.vars, name: val}), self.where(node, cx))
            return
        if fn is not None and name in fn.nonlocals:
            f = fo.closure
            while f is not None:
                o = st.get(f)
                if name in o.vars:
                    st.put(f, Frame({**o.vars, name: val}, o.closure, o.mod, o.func))
                    if f.id < st.boundary:
                        st.event("write", f"closure variable {name}", self.where(node, cx), Tup((val,)))
                    return
                f = o.closure
        st.put(cx.frame, Frame({**fo.vars, name: val}, fo.closure, fo.mod, fo.func))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, cx):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                self.steps += 1
                if self.steps > MAX_STEPS:
                    raise TooComplex("step budget exhausted")
                for y, ctl in self.exec(s, x, cx):
                    if ctl is NORMAL:
                        nxt.append(y)
                    else:
                        done.append((y, ctl))
            if len(nxt) > 1:
                nxt = [y for y, _ in join([(y, None) for y in nxt])]
            if len(nxt) > 4000:
                raise TooComplex("too many states")
            cur = nxt
            if not cur:
                break
        return [(y, NORMAL) for y in cur] + done

    def exec(self, s, st, cx):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            st.mark(f"unsupported statement {type(s).__name__} at {self.where(s, cx)}")
            return [(st, NORMAL)]
        return m(s, st, cx)

    def x_Pass(self, s, st, cx):
        return [(st, NORMAL)]

    def x_Global(self, s, st, cx):
        return [(st, NORMAL)]

    x_Nonlocal = x_Global

    def x_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return [(st, NORMAL)]
        return [(y, NORMAL) for y, _ in self.ev(s.value, st, cx)]

    def x_Return(self, s, st, cx):
        w = self.where(s, cx)
        if s.value is None:
            st.ret = w
            return [(st, ("ret", None))]
        out = []
        for y, v in self.ev(s.value, st, cx):
            y.ret = w
            out.append((y, ("ret", v)))
        return out

    def x_Break(self, s, st, cx):
        return [(st, "brk")]

    def x_Continue(self, s, st, cx):
        return [(st, "cnt")]

    def x_Assign(self, s, st, cx):
        out = []
        for y, v in self.ev(s.value, st, cx):
            sts = [y]
            for t in s.targets:
                sts = [z for x in sts for z in self.assign(t, v, x, cx)]
            out += [(z, NORMAL) for z in sts]
        return out

    def x_AnnAssign(self, s, st, cx):
        if cx.frame is not None:
            fo = st.get(cx.frame)
            if isinstance(fo.func, str) and isinstance(s.target, ast.Name):
                ann = fo.vars.get("__annotations__", Tup(()))
                if s.target.id not in ann.items:
                    txt = ast.unparse(s.annotation)
                    if "ClassVar" not in txt:
                        self.bind("__annotations__", Tup(ann.items + (s.target.id,)), st, cx)
        if s.value is None:
            return [(st, NORMAL)]
        out = []
        for y, v in self.ev(s.value, st, cx):
            out += [(z, NORMAL) for z in self.assign(s.target, v, y, cx)]
        return out

    def x_AugAssign(self, s, st, cx):
        out = []
        t = s.target
        opn = type(s.op).__name__
        if isinstance(t, ast.Name):
            for y, old in self.lookup(t.id, st, cx, s):
                for z, v in self.ev(s.value, y, cx):
                    for w, r in self.inplace(opn, old, v, z, cx, s):
                        self.bind(t.id, r, w, cx, s)
                        out.append((w, NORMAL))
        elif isinstance(t, ast.Attribute):
            for y, o in self.ev(t.value, st, cx):
                for y2, old in self.getattr(o, t.attr, y, cx, s):
                    for z, v in self.ev(s.value, y2, cx):
                        for w, r in self.inplace(opn, old, v, z, cx, s):
                            out += [(q, NORMAL) for q in self.setattr(o, t.attr, r, w, cx, s)]
        elif isinstance(t, ast.Subscript):
            for y, o in self.ev(t.value, st, cx):
                for y2, k in self.ev(t.slice, y, cx):
                    for y3, old in self.getitem(o, k, y2, cx, s):
                        for z, v in self.ev(s.value, y3, cx):
                            for w, r in self.inplace(opn, old, v, z, cx, s):
                                out += [(q, NORMAL) for q in self.setitem(o, k, r, w, cx, s)]
        return out

    def inplace(self, op, old, v, st, cx, node):
        if isinstance(old, Ref):
            o = st.get(old)
            if isinstance(o, LObj) and op == "Add":
                out = []
                for y, items in self.iterate(v, st, cx, node):
                    y.put(old, LObj(y.get(old).items + tuple(items)), self.where(node, cx))
                    out.append((y, old))
                return out
            if isinstance(o, BAObj) and op == "Add":
                out = []
                for y, b in self.to_bytes_like(v, st, cx, node):
                    y.put(old, BAObj(bcat(y.get(old).data, b)), self.where(node, cx))
                    out.append((y, old))
                return out
            if isinstance(o, (SetObj, DObj)) and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
                out = []
                for y, r in self.binop(op, old, v, st, cx, node):
                    y.put(old, y.get(r), self.where(node, cx))
                    out.append((y, old))
                return out
        return self.binop(op, old, v, st, cx, node)

    def assign(self, t, v, st, cx):
        """returns list of states"""
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, cx, t)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for y, items in self.iterate(v, st, cx, t):
                if items is None:
                    sts = [y]
                    for e in t.elts:
                        sub = e.value if isinstance(e, ast.Starred) else e
                        sts = [z for x in sts for z in self.assign(sub, Unk("unpacked", taint(v)), x, cx)]
                    out += sts
                    continue
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                n = len(t.elts)
                if star:
                    i = star[0]
                    if len(items) < n - 1:
                        self.throw(y, "ValueError", "not enough values to unpack", t, cx)
                        continue
                    k = len(items) - (n - 1)
                    vals = list(items[:i]) + [y.alloc_list(items[i:i + k])] + list(items[i + k:])
                else:
                    if len(items) != n:
                        self.throw(y, "ValueError", "wrong number of values to unpack", t, cx)
                        continue
                    vals = list(items)
                sts = [y]
                for e, x in zip(t.elts, vals):
                    e = e.value if isinstance(e, ast.Starred) else e
                    sts = [z for q in sts for z in self.assign(e, x, q, cx)]
                out += sts
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for y, o in self.ev(t.value, st, cx):
                out += self.setattr(o, t.attr, v, y, cx, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for y, o in self.ev(t.value, st, cx):
                for z, k in self.ev(t.slice, y, cx):
                    out += self.setitem(o, k, v, z, cx, t)
            return out
        st.mark("unsupported assignment target")
        return [st]

    def x_Delete(self, s, st, cx):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Name):
                    if x is not None and cx.frame is not None:
                        fo = x.get(cx.frame)
                        x.put(cx.frame, Frame({k: v for k, v in fo.vars.items() if k != t.id},
                                              fo.closure, fo.mod, fo.func))
                    else:
                        m = x.get(cx.mod)
                        x.put(cx.mod, Mod(m.name, {k: v for k, v in m.vars.items() if k != t.id}))
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, o in self.ev(t.value, x, cx):
                        for z, k in self.ev(t.slice, y, cx):
                            nxt += [w for w, _ in self.delitem(o, k, z, cx, s)]
                elif isinstance(t, ast.Attribute):
                    for y, o in self.ev(t.value, x, cx):
                        if isinstance(o, Ref) and isinstance(y.get(o), Inst):
                            io = y.get(o)
                            y.put(o, Inst(io.cls, {k: v for k, v in io.attrs.items() if k != t.attr}),
                                  self.where(s, cx))
                        else:
                            y.mark("del attribute")
                        nxt.append(y)
                else:
                    x.mark("unsupported del")
                    nxt.append(x)
            sts = nxt
        return [(x, NORMAL) for x in sts]

    def cond(self, node, st, cx):
        """evaluate a condition: list of (state, bool)"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [st]
            out = []
            for i, v in enumerate(node.values):
                nxt = []
                for x in cur:
                    for y, b in self.cond(v, x, cx):
                        if b != isand:
                            out.append((y, b))
                        elif i == len(node.values) - 1:
                            out.append((y, b))
                        else:
                            nxt.append(y)
                cur = nxt
            return join(out)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(y, not b) for y, b in self.cond(node.operand, st, cx)]
        out = []
        for y, v in self.ev(node, st, cx):
            out += self.truth(v, y, cx, node)
        return join(out)

    def x_If(self, s, st, cx):
        out = []
        for y, b in self.cond(s.test, st, cx):
            out += self.exec_block(s.body if b else s.orelse, y, cx) if (s.body if b else s.orelse) else [(y, NORMAL)]
        return join_ctl(out)

    def x_Assert(self, s, st, cx):
        out = []
        for y, b in self.cond(s.test, st, cx):
            if b:
                out.append((y, NORMAL))
            else:
                self.throw(y, "AssertionError", "", s, cx)
        return out

    def x_While(self, s, st, cx):
        cur = [st]
        out = []
        n = 0
        while cur:
            n += 1
            if n > MAX_LOOP:
                raise TooComplex(f"loop bound at {self.where(s, cx)}")
            nxt = []
            for x in cur:
                for y, b in self.cond(s.test, x, cx):
                    if not b:
                        out += self.exec_block(s.orelse, y, cx) if s.orelse else [(y, NORMAL)]
                        continue
                    for z, ctl in self.exec_block(s.body, y, cx):
                        if ctl is NORMAL or ctl == "cnt":
                            if len(z.imprecise) and n > 200:
                                # widening: give the loop up
                                z.mark(f"loop at {self.where(s, cx)} not bounded")
                                out.append((z, NORMAL))
                            else:
                                nxt.append(z)
                        elif ctl == "brk":
                            out.append((z, NORMAL))
                        else:
                            out.append((z, ctl))
            cur = [y for y, _ in join([(y, None) for y in nxt])]
            if len(cur) > 3000:
                raise TooComplex(f"too many states in loop at {self.where(s, cx)}")
        return join_ctl(out)

    def x_For(self, s, st, cx):
        out = []
        for y0, it in self.ev(s.iter, st, cx):
            for y, items in self.iterate(it, y0, cx, s.iter):
                if items is None:
                    # unknown iterable: havoc what the body assigns, give up precision
                    y.mark(f"iteration over an unknown value at {self.where(s, cx)}")
                    z = y.fork()
                    out += self.exec_block(s.orelse, y, cx) if s.orelse else [(y, NORMAL)]
                    for w in self.assign(s.target, Unk("element", taint(it)), z, cx):
                        for q, ctl in self.exec_block(s.body, w, cx):
                            out.append((q, NORMAL if ctl in ("cnt", "brk") else ctl))
                    continue
                cur = [y]
                for v in items:
                    nxt = []
                    for x in cur:
                        for w in self.assign(s.target, v, x, cx):
                            for q, ctl in self.exec_block(s.body, w, cx):
                                if ctl is NORMAL or ctl == "cnt":
                                    nxt.append(q)
                                elif ctl == "brk":
                                    out.append((q, NORMAL))
                                else:
                                    out.append((q, ctl))
                    cur = [q for q, _ in join([(q, None) for q in nxt])]
                    if len(cur) > 3000:
                        raise TooComplex(f"too many states in loop at {self.where(s, cx)}")
                for x in cur:
                    out += self.exec_block(s.orelse, x, cx) if s.orelse else [(x, NORMAL)]
        return join_ctl(out)

    def x_FunctionDef(self, s, st, cx):
        out = []
        for y, f in self.make_function(s, st, cx):
            for z, v in self.decorate(s.decorator_list, f, y, cx):
                self.bind(s.name, v, z, cx, s)
                out.append((z, NORMAL))
        return out

    def x_AsyncFunctionDef(self, s, st, cx):
        self.bind(s.name, Unk("async function"), st, cx, s)
        return [(st, NORMAL)]

    def make_function(self, node, st, cx, name=None):
        info = self.scan_cache.get(node)
        if info is None:
            info = self.scan_cache[node] = scan_locals(node)
        out = []
        a = node.args
        for y, dv in self.evs(a.defaults, st, cx):
            sts = [(y, [])]
            for kn, kd in zip(a.kwonlyargs, a.kw_defaults):
                nxt = []
                for z, acc in sts:
                    if kd is None:
                        nxt.append((z, acc))
                    else:
                        for w, v in self.ev(kd, z, cx):
                            nxt.append((w, acc + [(kn.arg, v)]))
                sts = nxt
            for z, kw in sts:
                nm = name or getattr(node, "name", "<lambda>")
                clo = cx.frame
                owner = None
                if clo is not None and isinstance(z.get(clo).func, str):
                    clo = z.get(clo).closure       # class scope is not enclosing
                f = Func(node, nm, f"{cx.qual}.{nm}", cx.mod, clo, tuple(dv), tuple(kw), owner, info, cx.file)
                out.append((z, f))
        return out

    def decorate(self, decs, f, st, cx):
        cur = [(st, f)]
        for d in reversed(decs):
            nxt = []
            for y, v in cur:
                for z, dv in self.ev(d, y, cx):
                    nxt += self.call(dv, [v], {}, z, cx, d)
            cur = nxt
        return cur

    def x_ClassDef(self, s, st, cx):
        out = []
        bases = [b for b in s.bases if not isinstance(b, ast.Starred)]
        for y, bs in self.evs(bases, st, cx):
            bs = [self.norm_base(b) for b in bs]
            qual = f"{cx.qual}.{s.name}"
            fr = y.new(Frame({}, cx.frame, cx.mod, "class"))
            ccx = Cx(fr, None, cx.file, cx.mod, qual)
            for z, ctl in self.exec_block(s.body, y, ccx):
                attrs = dict(z.get(fr).vars)
                ref = z.new(None)
                attrs = {k: self.own(v, ref) for k, v in attrs.items()}
                flags = ()
                for b in bs:
                    if isinstance(b, Ext) and b.name in ("typing.NamedTuple",):
                        flags += ("namedtuple",)
                        attrs["_fields"] = attrs.get("__annotations__", Tup(()))
                    if isinstance(b, Ext) and b.name.startswith("enum."):
                        flags += (b.name,)
                    if isinstance(b, Ref) and isinstance(z.get(b), Cls):
                        flags += tuple(f for f in z.get(b).flags if f.startswith("enum.") or f == "namedtuple")
                for k in s.keywords:
                    if k.arg == "boundary":
                        flags += ("enum.boundary." + ast.unparse(k.value).split(".")[-1],)
                mro = self.linearize(z, ref, bs)
                z.heap[ref.id] = Cls(s.name, qual, tuple(bs), attrs, mro, flags)
                del z.heap[fr.id]
                if any(f.startswith("enum.") for f in flags):
                    self.make_enum(z, ref)
                for w, v in self.decorate(s.decorator_list, ref, z, cx):
                    self.bind(s.name, v, w, cx, s)
                    out.append((w, NORMAL))
        return out

    def norm_base(self, b):
        if isinstance(b, XO) and b.kind == "extsub":
            return b.args[0]
        return b

    def own(self, v, ref):
        if isinstance(v, Func) and v.owner is None:
            return v.with_owner(ref)
        if isinstance(v, XO) and v.kind in ("classmethod", "staticmethod", "property", "cached", "ctxfactory"):
            return XO(v.kind, *[self.own(a, ref) for a in v.args])
        return v

    def linearize(self, st, ref, bases):
        seqs = [list(self.mro(st, b)) for b in bases] + [list(bases)]
        out = [ref]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            if h not in out:
                out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        if Ext("object") not in out:
            out.append(Ext("object"))
        return tuple(out)

    def make_enum(self, st, ref):
        c = st.get(ref)
        flag = any(f in ("enum.Flag", "enum.IntFlag") for f in c.flags)
        plain = any(f in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum", "enum.Flag") for f in c.flags) or \
            any(isinstance(b, Ext) and b.name in ("int", "str", "bytes") for b in c.bases)
        attrs = {}
        members = []
        self.enums = True
        last = 0
        for k, v in c.attrs.items():
            if isinstance(v, XO) and v.kind == "auto":
                v = k.lower() if "enum.StrEnum" in c.flags else 1 << last.bit_length() if flag else last + 1
            if isinstance(v, int) and not k.startswith("__"):
                last = max(last, v) if flag else v
            if k.startswith("__") or isinstance(v, (Func, XO)):
                attrs[k] = v
            elif plain:
                attrs[k] = v
                members.append(v)
            else:
                m = st.new(Inst(ref, {"value": v, "name": k, "_value_": v, "_name_": k}))
                attrs[k] = m
                members.append(m)
        attrs["__members__"] = Tup(members)
        st.heap[ref.id] = Cls(c.name, c.qual, c.bases, attrs, c.mro, c.flags)

    def x_Import(self, s, st, cx):
        for al in s.names:
            if al.name.split(".")[0] == self.package:
                if al.name not in self.modules:
                    return self.throw(st, "ModuleNotFoundError", al.name, s, cx)
                st = self.import_module(al.name, st)
                v = self.modrefs[al.name if al.asname else al.name.split(".")[0]]
                self.bind(al.asname or al.name.split(".")[0], v, st, cx, s)
            else:
                if al.asname:
                    self.bind(al.asname, self.ext(al.name), st, cx, s)
                else:
                    self.bind(al.name.split(".")[0], self.ext(al.name.split(".")[0]), st, cx, s)
        return [(st, NORMAL)]

    def x_ImportFrom(self, s, st, cx):
        mod = s.module or ""
        if s.level:
            me = st.get(cx.mod).vars.get("__name__") if False else st.get(cx.mod).name
            parts = me.split(".")
            if not self.modules[me].ispkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return [(st, NORMAL)]
        if mod.split(".")[0] == self.package:
            if mod not in self.modules:
                return self.throw(st, "ModuleNotFoundError", mod, s, cx)
            st = self.import_module(mod, st)
            mo = st.get(self.modrefs[mod])
            for al in s.names:
                if al.name == "*":
                    alln = mo.vars.get("__all__")
                    names = [k for k in mo.vars if not k.startswith("_")]
                    if isinstance(alln, Ref) and isinstance(st.get(alln), LObj):
                        names = [x for x in st.get(alln).items if isinstance(x, str)]
                    for k in names:
                        if k in mo.vars:
                            self.bind(k, mo.vars[k], st, cx, s)
                    continue
                if al.name in mo.vars:
                    v = mo.vars[al.name]
                elif mod + "." + al.name in self.modules:
                    st = self.import_module(mod + "." + al.name, st)
                    v = self.modrefs[mod + "." + al.name]
                    mo = st.get(self.modrefs[mod])
                else:
                    return self.throw(st, "ImportError", al.name, s, cx)
                self.bind(al.asname or al.name, v, st, cx, s)
            return [(st, NORMAL)]
        for al in s.names:
            if al.name == "*":
                st.mark(f"star import from {mod}")
                continue
            self.bind(al.asname or al.name, self.ext_attr(mod, al.name, st), st, cx, s)
        return [(st, NORMAL)]

    def x_Raise(self, s, st, cx):
        if s.exc is None:
            fo = cx.frame and st.get(cx.frame)
            e = fo.vars.get("$exc") if fo else None
            if e is None:
                return self.throw(st, "RuntimeError", "No active exception to reraise", s, cx)
            return self.raise_value(st, e, s, cx)
        out = []
        for y, v in self.ev(s.exc, st, cx):
            pairs = [(y, v)]
            if isinstance(v, Ext) or (isinstance(v, Ref) and isinstance(y.get(v), Cls)):
                pairs = self.call(v, [], {}, y, cx, s)
            for z, e in pairs:
                if s.cause is not None:
                    for w, c in self.ev(s.cause, z, cx):
                        if isinstance(e, Ref) and isinstance(w.get(e), Inst):
                            io = w.get(e)
                            w.put(e, Inst(io.cls, {**io.attrs, "__cause__": c}))
                        self._raise1(e, w, s, cx)
                else:
                    self._raise1(e, z, s, cx)
        return out

    def _raise1(self, e, st, s, cx):
        if isinstance(e, Ref) and isinstance(st.get(e), Inst):
            fo = st.get(cx.frame) if cx.frame is not None else None
            ctx = fo.vars.get("$exc") if fo else None
            io = st.get(e)
            if ctx is not None and "__context__" not in io.attrs and ctx != e:
                st.put(e, Inst(io.cls, {**io.attrs, "__context__": ctx}))
            self.raise_value(st, e, s, cx)
        elif isinstance(e, Unk):
            st.mark("raises an unknown object")
            ref = st.new(Inst(Unk("exception class"), {"args": Tup(())}))
            self.raise_value(st, ref, s, cx)
        else:
            self.throw(st, "TypeError", "exceptions must derive from BaseException", s, cx)

    def x_Try(self, s, st, cx):
        self.sinks.append([])
        entry, depth = st.nref, st.depth
        body = self.exec_block(s.body, st, cx)
        raised = self.sinks.pop()
        out = []
        for y, e, w in raised:
            y.depth = depth
            gc(y, entry, e)
        if s.finalbody:
            self.sinks.append([])
        for y, ctl in body:
            if ctl is NORMAL and s.orelse:
                out += self.exec_block(s.orelse, y, cx)
            else:
                out.append((y, ctl))
        for y, e, w in raised:
            out += self.handle(s.handlers, y, e, w, cx)
        if s.finalbody:
            esc = self.sinks.pop()
            fin = []
            for y, ctl in join_ctl(out):
                for z, c2 in self.exec_block(s.finalbody, y, cx):
                    fin.append((z, ctl if c2 is NORMAL else c2))
            for y, e, w in esc:
                for z, c2 in self.exec_block(s.finalbody, y, cx):
                    if c2 is NORMAL:
                        self.sinks[-1].append((z, e, w))
                    else:
                        fin.append((z, c2))
            out = fin
        return join_ctl(out)

    x_TryStar = x_Try

    def handle(self, handlers, st, e, w, cx):
        cur = [st]
        out = []
        for h in handlers:
            nxt = []
            for x in cur:
                if h.type is None:
                    verd = [(x, True)]
                else:
                    verd = []
                    for y, t in self.ev(h.type, x, cx):
                        ts = t.items if isinstance(t, Tup) else (t,)
                        r = False
                        for c in ts:
                            b = self.is_subclass(y, y.get(e).cls, c)
                            if b:
                                r = True
                                break
                            if b is None:
                                r = None
                        if r is None:
                            y.mark("unknown exception class")
                            z = y.fork()
                            verd += [(y, True), (z, False)]
                        else:
                            verd.append((y, r))
                for y, b in verd:
                    if not b:
                        nxt.append(y)
                        continue
                    old = None
                    if cx.frame is not None:
                        old = y.get(cx.frame).vars.get("$exc")
                        self._setvar(y, cx, "$exc", e)
                    if h.name:
                        self.bind(h.name, e, y, cx, h)
                    self.sinks.append([])
                    res = self.exec_block(h.body, y, cx)
                    for sk in self.sinks.pop():
                        if cx.frame is not None:
                            self._setvar(sk[0], cx, "$exc", old)
                            if h.name:
                                self._setvar(sk[0], cx, h.name, None)
                        self.sinks[-1].append(sk)
                    for z, ctl in res:
                        if cx.frame is not None:
                            self._setvar(z, cx, "$exc", old)
                            if h.name:
                                self._setvar(z, cx, h.name, None)
                        out.append((z, ctl))
            cur = nxt
        for x in cur:
            self.sinks[-1].append((x, e, w))
        return out

    def _setvar(self, st, cx, name, v):
        fo = st.get(cx.frame)
        d = dict(fo.vars)
        if v is None:
            d.pop(name, None)
        else:
            d[name] = v
        st.put(cx.frame, Frame(d, fo.closure, fo.mod, fo.func))

    def x_With(self, s, st, cx):
        return self._with(s.items, s.body, st, cx, s)

    def _with(self, items, body, st, cx, s):
        if not items:
            return self.exec_block(body, st, cx)
        it = items[0]
        out = []
        for y, m in self.ev(it.context_expr, st, cx):
            if isinstance(m, XO) and m.kind == "suppress":
                self.sinks.append([])
                res = self._with(items[1:], body, y, cx, s)
                raised = self.sinks.pop()
                out += res
                for z, e, w in raised:
                    r = [self.is_subclass(z, z.get(e).cls, c) for c in m.args]
                    if True in r:
                        out.append((z, NORMAL))
                    else:
                        if None in r:
                            z.mark("suppress of unknown class")
                        self.sinks[-1].append((z, e, w))
                continue
            if isinstance(m, XO) and m.kind == "ctxgen":
                out += self.with_generator(m, it, items, body, y, cx, s)
                continue
            if isinstance(m, Ref) and isinstance(y.get(m), Inst) and \
                    self.find_attr(y, y.get(m).cls, "__enter__") is not None:
                for z, v in self.call_method(m, "__enter__", [], y, cx, s):
                    sts = self.assign(it.optional_vars, v, z, cx) if it.optional_vars is not None else [z]
                    for w in sts:
                        self.sinks.append([])
                        res = self._with(items[1:], body, w, cx, s)
                        raised = self.sinks.pop()
                        for q, ctl in res:
                            for q2, _ in self.call_method(m, "__exit__", [None, None, None], q, cx, s):
                                out.append((q2, ctl))
                        for q, e, wh in raised:
                            for q2, r in self.call_method(m, "__exit__", [q.get(e).cls, e, None], q, cx, s):
                                for q3, b in self.truth(r, q2, cx, s):
                                    if b:
                                        out.append((q3, NORMAL))
                                    else:
                                        self.sinks[-1].append((q3, e, wh))
                continue
            v = m if isinstance(m, (XO, Ref)) else Unk("context manager", taint(m))
            if isinstance(m, XO) and m.kind == "nullcontext":
                v = m.args[0] if m.args else None
            sts = self.assign(it.optional_vars, v, y, cx) if it.optional_vars is not None else [y]
            for w in sts:
                n = len(self.sinks[-1])
                out += self._with(items[1:], body, w, cx, s)
                if isinstance(v, Unk):
                    for z, e, wh in self.sinks[-1][n:]:
                        z.mark("an exception within an unknown context manager")
        return join_ctl(out)

    def with_generator(self, m, it, items, body, st, cx, s):
        """with f(...): where f is a generator function under contextlib.contextmanager: the generator runs, and the
        body of the statement where it yields (exceptions of the body are raised there)"""
        f, args, kw = m.args[0], list(m.args[1].items), {i.items[0]: i.items[1] for i in m.args[2].items}
        while isinstance(f, XO) and f.kind == "bm":
            f, args = f.args[0], [f.args[1]] + args
        if not isinstance(f, Func) or not f.isgen or st.depth > 80:
            raise TooComplex("context manager")
        self.calls.add((f.file, f.qual))
        entry = st.nref
        vars = self.bind_args(f, args, kw, st, cx, s)
        if vars is None:
            return self.throw(st, "TypeError", f"{f.qual}() got wrong arguments", s, cx)
        fr = st.new(Frame(vars, f.closure, f.mod, f))
        fcx = Cx(fr, f, f.file, f.mod, f.qual)

        def hook(y, v):
            fo = y.get(fr)
            if "$ctl" in fo.vars:
                y.mark("a context manager that yields twice")
            out = []
            d = y.depth
            for z in (self.assign(it.optional_vars, v, y, cx) if it.optional_vars is not None else [y]):
                z.depth = d
                for w, ctl in self._with(items[1:], body, z, cx, s):
                    fo = w.get(fr)
                    w.put(fr, Frame({**fo.vars, "$ctl": ctl}, fo.closure, fo.mod, fo.func))
                    out.append((w, None))
            return out
        fcx.hook = hook
        st.depth += 1
        out = []
        for y, ctl in self.exec_block(f.node.body, st, fcx):
            y.depth -= 1
            ctl = y.get(fr).vars.get("$ctl", NORMAL)
            out.append((y, ctl))
        return out

    def x_Match(self, s, st, cx):
        out = []
        for y, v in self.ev(s.subject, st, cx):
            cur = [y]
            for case in s.cases:
                nxt = []
                for x in cur:
                    for z, b, binds in self.match(case.pattern, v, x, cx):
                        if not b:
                            nxt.append(z)
                            continue
                        for k, val in binds:
                            self.bind(k, val, z, cx, s)
                        if case.guard is not None:
                            for w, g in self.cond(case.guard, z, cx):
                                if g:
                                    out += self.exec_block(case.body, w, cx)
                                else:
                                    nxt.append(w)
                        else:
                            out += self.exec_block(case.body, z, cx)
                cur = nxt
            out += [(x, NORMAL) for x in cur]
        return join_ctl(out)

    def match(self, p, v, st, cx):
        """list of (state, matched, bindings)"""
        if isinstance(p, ast.MatchValue):
            out = []
            for y, k in self.ev(p.value, st, cx):
                out += [(z, b, []) for z, b in self.equal(v, k, y, cx, p)]
            return out
        if isinstance(p, ast.MatchSingleton):
            return [(st, same(v, p.value), [])] if not isinstance(v, Unk) else \
                [(y, b, []) for y, b in self.truth(v, st, cx, p)]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [(st, True, [(p.name, v)] if p.name else [])]
            return [(y, b, bd + ([(p.name, v)] if p.name and b else [])) for y, b, bd in self.match(p.pattern, v, st, cx)]
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    for y, b, bd in self.match(q, v, x, cx):
                        if b:
                            out.append((y, True, bd))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(x, False, []) for x in cur]
        if isinstance(p, ast.MatchSequence):
            items = None
            if isinstance(v, Tup):
                items = v.items
            elif isinstance(v, Ref) and isinstance(st.get(v), LObj):
                items = st.get(v).items
            if items is None:
                if isinstance(v, Unk):
                    st.mark("match on unknown")
                return [(st, False, [])]
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star or len(items) != len(p.patterns):
                if star:
                    st.mark("match star pattern")
                return [(st, False, [])]
            cur = [(st, [])]
            out = []
            for q, x in zip(p.patterns, items):
                nxt = []
                for y, bd in cur:
                    for z, b, bd2 in self.match(q, x, y, cx):
                        if b:
                            nxt.append((z, bd + bd2))
                        else:
                            out.append((z, False, []))
                cur = nxt
            return out + [(y, True, bd) for y, bd in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for y, c in self.ev(p.cls, st, cx):
                for z, b in self.isinstance_(v, c, y, cx, p):
                    out.append((z, b, []))
            return out
        st.mark("unsupported match pattern")
        return [(st, False, [])]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, cx):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            st.mark(f"unsupported expression {type(n).__name__} at {self.where(n, cx)}")
            return [(st, Unk(type(n).__name__))]
        return m(n, st, cx)

    def evs(self, nodes, st, cx):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for y, acc in cur:
                for z, v in self.ev(n, y, cx):
                    nxt.append((z, acc + [v]))
            cur = nxt
        return cur

    def ev_elts(self, elts, st, cx):
        """list elements with starred ones spread"""
        cur = [(st, [])]
        for n in elts:
            nxt = []
            for y, acc in cur:
                if isinstance(n, ast.Starred):
                    for z, v in self.ev(n.value, y, cx):
                        for w, items in self.iterate(v, z, cx, n):
                            if items is None:
                                w.mark("spread of unknown value")
                                items = []
                            nxt.append((w, acc + list(items)))
                else:
                    for z, v in self.ev(n, y, cx):
                        nxt.append((z, acc + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st, cx):
        return [(st, n.value)]

    def e_Name(self, n, st, cx):
        return self.lookup(n.id, st, cx, n)

    def e_NamedExpr(self, n, st, cx):
        out = []
        for y, v in self.ev(n.value, st, cx):
            c = cx
            # in a comprehension the walrus binds in the containing function
            while c.frame is not None and y.get(c.frame).func == "comp":
                c = Cx(y.get(c.frame).closure, c.func, c.file, c.mod, c.qual)
            self.bind(n.target.id, v, y, c, n)
            out.append((y, v))
        return out

    def e_Tuple(self, n, st, cx):
        return [(y, Tup(v)) for y, v in self.ev_elts(n.elts, st, cx)]

    def e_List(self, n, st, cx):
        return [(y, y.new(LObj(v))) for y, v in self.ev_elts(n.elts, st, cx)]

    def e_Set(self, n, st, cx):
        return [(y, y.new(SetObj(self.dedup(v)))) for y, v in self.ev_elts(n.elts, st, cx)]

    def dedup(self, vals):
        out = []
        for v in vals:
            if not any(same(v, o) for o in out):
                out.append(v)
        return out

    def e_Dict(self, n, st, cx):
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for y, acc in cur:
                if k is None:
                    for z, m in self.ev(v, y, cx):
                        if isinstance(m, Ref) and isinstance(z.get(m), DObj):
                            a = list(acc)
                            for kk, vv in z.get(m).items:
                                a = dset(a, kk, vv)
                            nxt.append((z, a))
                        else:
                            z.mark("dict spread of unknown value")
                            nxt.append((z, acc))
                else:
                    for z, kv in self.ev(k, y, cx):
                        for w, vv in self.ev(v, z, cx):
                            nxt.append((w, dset(acc, kv, vv)))
            cur = nxt
        return [(y, y.new(DObj(items))) for y, items in cur]

    def e_BoolOp(self, n, st, cx):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(n.values):
            nxt = []
            for x in cur:
                for y, val in self.ev(v, x, cx):
                    if i == len(n.values) - 1:
                        out.append((y, val))
                        continue
                    for z, b in self.truth(val, y, cx, v):
                        if b == isand:
                            nxt.append(z)
                        else:
                            out.append((z, self.falsy(val, z) if isand else val))
            cur = nxt
        return join(out)

    def falsy(self, v, st):
        """value v known to be false"""
        if isinstance(v, SI):
            return 0
        if isinstance(v, SS):
            return ""
        if isinstance(v, VB):
            return b""
        return v

    def e_UnaryOp(self, n, st, cx):
        if isinstance(n.op, ast.Not):
            return [(y, not b) for y, b in self.cond(n.operand, st, cx)]
        out = []
        for y, v in self.ev(n.operand, st, cx):
            out += self.unary(type(n.op).__name__, v, y, cx, n)
        return out

    def e_BinOp(self, n, st, cx):
        out = []
        op = type(n.op).__name__
        for y, a in self.ev(n.left, st, cx):
            for z, b in self.ev(n.right, y, cx):
                out += self.binop(op, a, b, z, cx, n)
        return out

    def e_Compare(self, n, st, cx):
        out = []
        for y, a in self.ev(n.left, st, cx):
            out += self._cmp_chain(a, n.ops, n.comparators, y, cx, n)
        return join(out)

    def _cmp_chain(self, a, ops, rest, st, cx, n):
        out = []
        for y, b in self.ev(rest[0], st, cx):
            for z, r in self.compare(type(ops[0]).__name__, a, b, y, cx, n):
                if len(ops) == 1:
                    out.append((z, r))
                    continue
                for w, t in self.truth(r, z, cx, n):
                    if not t:
                        out.append((w, False))
                    else:
                        out += self._cmp_chain(b, ops[1:], rest[1:], w, cx, n)
        return out

    def e_IfExp(self, n, st, cx):
        out = []
        for y, b in self.cond(n.test, st, cx):
            out += self.ev(n.body if b else n.orelse, y, cx)
        return join(out)

    def e_Attribute(self, n, st, cx):
        out = []
        for y, o in self.ev(n.value, st, cx):
            out += self.getattr(o, n.attr, y, cx, n)
        return out

    def e_Subscript(self, n, st, cx):
        out = []
        for y, o in self.ev(n.value, st, cx):
            for z, k in self.ev(n.slice, y, cx):
                out += self.getitem(o, k, z, cx, n)
        return out

    def e_Slice(self, n, st, cx):
        parts = [p if p is not None else ast.Constant(None) for p in (n.lower, n.upper, n.step)]
        return [(y, XO("slice", *v)) for y, v in self.evs(parts, st, cx)]

    def e_Starred(self, n, st, cx):
        return self.ev(n.value, st, cx)

    def e_Lambda(self, n, st, cx):
        return self.make_function(n, st, cx, "<lambda>")

    def e_JoinedStr(self, n, st, cx):
        cur = [(st, "")]
        for part in n.values:
            nxt = []
            for y, acc in cur:
                if isinstance(part, ast.Constant):
                    nxt.append((y, scat(acc, part.value)))
                    continue
                for z, v in self.ev(part.value, y, cx):
                    specs = [(z, "")]
                    if part.format_spec is not None:
                        specs = self.ev(part.format_spec, z, cx)
                    for w, sp in specs:
                        conv = {115: "s", 114: "r", 97: "a", -1: ""}[part.conversion]
                        for q, s in self.format_value(v, sp, conv, w, cx, n):
                            nxt.append((q, scat(acc, s)))
            cur = nxt
        return cur

    def e_FormattedValue(self, n, st, cx):
        return self.e_JoinedStr(ast.JoinedStr([n]), st, cx)

    # comprehensions -------------------------------------------------
    def _comp(self, n, st, cx, leaf):
        fr = st.new(Frame({}, cx.frame, cx.mod, "comp"))
        ccx = Cx(fr, cx.func, cx.file, cx.mod, cx.qual)

        def gen(i, x, acc):
            if i == len(n.generators):
                return leaf(x, ccx, acc)
            g = n.generators[i]
            out = []
            for y, it in self.ev(g.iter, x, ccx if i else Cx(cx.frame, cx.func, cx.file, cx.mod, cx.qual)):
                for z, items in self.iterate(it, y, cx, g.iter):
                    if items is None:
                        z.mark(f"comprehension over an unknown value at {self.where(n, cx)}")
                        items = []
                    cur = [(z, acc)]
                    for v in items:
                        nxt = []
                        for w, a in cur:
                            for q in self.assign(g.target, v, w, ccx):
                                conds = [(q, True)]
                                for c in g.ifs:
                                    conds = [(r2, b and b2) for r, b in conds
                                             for r2, b2 in (self.cond(c, r, ccx) if b else [(r, False)])]
                                for r, b in conds:
                                    if b:
                                        nxt += gen(i + 1, r, a)
                                    else:
                                        nxt.append((r, a))
                        cur = nxt
                        if len(cur) > 3000:
                            raise TooComplex("comprehension")
                    out += cur
            return out
        return gen(0, st, [])

    def e_ListComp(self, n, st, cx):
        def leaf(x, ccx, acc):
            return [(y, acc + [v]) for y, v in self.ev(n.elt, x, ccx)]
        return [(y, y.new(LObj(v))) for y, v in self._comp(n, st, cx, leaf)]

    def e_SetComp(self, n, st, cx):
        def leaf(x, ccx, acc):
            return [(y, acc + [v]) for y, v in self.ev(n.elt, x, ccx)]
        return [(y, y.new(SetObj(self.dedup(v)))) for y, v in self._comp(n, st, cx, leaf)]

    def e_GeneratorExp(self, n, st, cx):
        def leaf(x, ccx, acc):
            return [(y, acc + [v]) for y, v in self.ev(n.elt, x, ccx)]
        return [(y, y.new(IterObj(v))) for y, v in self._comp(n, st, cx, leaf)]

    def e_DictComp(self, n, st, cx):
        def leaf(x, ccx, acc):
            return [(z, acc + [(k, v)]) for y, k in self.ev(n.key, x, ccx) for z, v in self.ev(n.value, y, ccx)]
        out = []
        for y, items in self._comp(n, st, cx, leaf):
            a = []
            for k, v in items:
                a = dset(a, k, v)
            out.append((y, y.new(DObj(a))))
        return out

    def e_Yield(self, n, st, cx):
        out = []
        for y, v in (self.ev(n.value, st, cx) if n.value is not None else [(st, None)]):
            if cx.hook is not None:
                out += cx.hook(y, v)
                continue
            fo = y.get(cx.frame)
            acc = fo.vars.get("$yield", Tup(()))
            y.put(cx.frame, Frame({**fo.vars, "$yield": Tup(acc.items + (v,))}, fo.closure, fo.mod, fo.func))
            out.append((y, None))
        return out

    def e_YieldFrom(self, n, st, cx):
        out = []
        for y, v in self.ev(n.value, st, cx):
            for z, items in self.iterate(v, y, cx, n):
                if items is None:
                    z.mark("yield from unknown")
                    items = []
                fo = z.get(cx.frame)
                acc = fo.vars.get("$yield", Tup(()))
                z.put(cx.frame, Frame({**fo.vars, "$yield": Tup(acc.items + tuple(items))},
                                      fo.closure, fo.mod, fo.func))
                out.append((z, None))
        return out

    def e_Await(self, n, st, cx):
        st.mark("await")
        return [(st, Unk("await"))]

    # calls ------------------------------------------------------------
    def e_Call(self, n, st, cx):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fo = st.get(cx.frame)
            f = cx.func
            if f is not None and f.owner is not None:
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return [(st, XO("super", f.owner, fo.vars.get(first)))]
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "globals") and not n.args:
            st.mark(f"{n.func.id}()")
            return [(st, Unk(n.func.id + "()"))]
        for y, f in self.ev(n.func, st, cx):
            for z, args in self.ev_elts(n.args, y, cx):
                cur = [(z, {})]
                for kw in n.keywords:
                    nxt = []
                    for w, acc in cur:
                        for q, v in self.ev(kw.value, w, cx):
                            if kw.arg is not None:
                                nxt.append((q, {**acc, kw.arg: v}))
                            elif isinstance(v, Ref) and isinstance(q.get(v), DObj):
                                nxt.append((q, {**acc, **{k: x for k, x in q.get(v).items if isinstance(k, str)}}))
                            else:
                                q.mark("** of unknown value")
                                nxt.append((q, acc))
                    cur = nxt
                for w, kws in cur:
                    out += self.call(f, args, kws, w, cx, n)
        return out

    def call(self, f, args, kw, st, cx, node):
        self.ncalls += 1
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, cx, node)
        if isinstance(f, XO):
            k = f.kind
            if k == "bm":
                return self.call(f.args[0], [f.args[1]] + list(args), kw, st, cx, node)
            if k == "staticmethod":
                return self.call(f.args[0], args, kw, st, cx, node)
            if k == "prim":
                return self.call_prim(f, args, kw, st, cx, node)
            if k == "partial":
                fn, pa, pk = f.args
                return self.call(fn, list(pa.items) + list(args), {**dict(pk.items), **kw}, st, cx, node)
            if k == "cached":
                before = st.draws
                out = []
                self.cachefuncs.add(f.args[0].qual if isinstance(f.args[0], Func) else str(f.args[0]))
                for y, v in self.call(f.args[0], args, kw, st, cx, node):
                    tn = taint(Tup(args)) | taint(v) | taint(Tup(list(kw.values())))
                    y.event("cache", f"cached function {getattr(f.args[0], 'qual', '?')}",
                            self.where(node, cx), Tup(tuple(args) + (v,)), y.draws != before)
                    out.append((y, v))
                return out
            if k == "ctxfactory":
                return [(st, XO("ctxgen", f.args[0], Tup(args), Tup(tuple(Tup(i) for i in kw.items()))))]
            if k == "extsub":
                return self.call(f.args[0], args, kw, st, cx, node)
            return self.call_xo(f, args, kw, st, cx, node)
        if isinstance(f, Ref):
            o = st.get(f)
            if isinstance(o, Cls):
                return self.instantiate(f, o, args, kw, st, cx, node)
            if isinstance(o, Inst):
                m = self.find_attr(st, o.cls, "__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kw, st, cx, node)
            return self.throw(st, "TypeError", "object is not callable", node, cx)
        if isinstance(f, Bound):
            return self.call_bound(f, args, kw, st, cx, node)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kw, st, cx, node)
        if isinstance(f, Unk):
            return self.call_unknown(f.why, args, kw, st, cx, node, f.taint)
        return self.throw(st, "TypeError", "object is not callable", node, cx)

    def call_unknown(self, name, args, kw, st, cx, node, tn=frozenset()):
        vals = list(args) + list(kw.values())
        t = frozenset(tn)
        for v in vals:
            t |= self.deep_taint(v, st)
        st.event("unkcall", name, self.where(node, cx), t)
        for v in vals:
            rs = []
            refs_in(v, rs)
            for i in rs:
                o = st.heap.get(i) or st.base.get(i)
                if isinstance(o, (LObj, DObj, SetObj, BAObj, Inst)) and not self.is_exc(st, o):
                    st.mark(f"{name} may change its arguments")
        return [(st, Unk(f"result of {name}", t))]

    def is_exc(self, st, o):
        return isinstance(o, Inst) and any(isinstance(c, Ext) and c.name == "BaseException" for c in self.mro(st, o.cls))

    def deep_taint(self, v, st, seen=None):
        t = taint(v)
        rs = []
        refs_in(v, rs)
        seen = seen if seen is not None else set()
        for i in rs:
            if i in seen:
                continue
            seen.add(i)
            o = st.heap.get(i)
            if o is None or isinstance(o, (Mod, Frame, Cls)):
                continue
            for s in o.__slots__:
                a = getattr(o, s)
                if isinstance(a, dict):
                    a = tuple(a.values())
                t |= self.deep_taint(a, st, seen)
        return t

    def bind_args(self, f, args, kw, st, cx, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                return None
            vars[a.vararg.arg] = Tup(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = Tup(())
        for n, v in zip(pos, args):
            vars[n] = v
        posonly = {x.arg for x in a.posonlyargs}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names and k not in posonly:
                if k in vars:
                    return None
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return None
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            vars.setdefault(n, d)
        for k, d in f.kwdefaults:
            vars.setdefault(k, d)
        for n in names:
            if n not in vars:
                return None
        if a.kwarg is not None:
            vars[a.kwarg.arg] = st.new(DObj(tuple(extra.items())))
        return vars

    def call_func(self, f, args, kw, st, cx, node):
        if st.depth > 80:
            if not all(isconst(a) for a in args) or not all(isconst(a) for a in kw.values()):
                raise TooComplex("call depth")
            if st.depth > 960:                # a recursion that has not ended within the interpreter's limit
                return self.throw(st, "RecursionError", "maximum recursion depth exceeded", node, cx)
        self.calls.add((f.file, f.qual))
        prim = self.primnodes.get(f.node)
        if prim is not None:
            r = self.call_primfunc(f, prim, args, kw, st, cx, node)
            if r is not None:
                return r
        entry = st.nref
        vars = self.bind_args(f, args, kw, st, cx, node)
        if vars is None:
            return self.throw(st, "TypeError", f"{f.qual}() got wrong arguments", node, cx)
        fr = st.new(Frame(vars, f.closure, f.mod, f))
        fcx = Cx(fr, f, f.file, f.mod, f.qual)
        st.depth += 1
        if isinstance(f.node, ast.Lambda):
            res = [(y, ("ret", v)) for y, v in self.ev(f.node.body, st, fcx)]
        else:
            res = self.exec_block(f.node.body, st, fcx)
        out = []
        for y, ctl in res:
            v = ctl[1] if isinstance(ctl, tuple) and ctl[0] == "ret" else None
            if f.isgen:
                acc = y.get(fr).vars.get("$yield", Tup(()))
                v = y.new(IterObj(acc.items))
            y.depth -= 1
            gc(y, entry, v)
            out.append((y, v))
        return join(out)

    def call_method(self, obj, name, args, st, cx, node):
        out = []
        for y, m in self.getattr(obj, name, st, cx, node):
            out += self.call(m, args, {}, y, cx, node)
        return out

    def find_attr(self, st, cls, name):
        for c in self.mro(st, cls):
            if isinstance(c, Ref):
                o = st.get(c)
                if name in o.attrs:
                    return o.attrs[name]
        return None

    def instantiate(self, ref, c, args, kw, st, cx, node):
        if any(f in ("enum.Flag", "enum.IntFlag") for f in c.flags) and len(args) == 1 and isint(args[0]):
            bound = [f.split(".")[-1] for f in c.flags if f.startswith("enum.boundary.")] or \
                ["KEEP" if "enum.IntFlag" in c.flags else "STRICT"]
            if bound[-1] == "KEEP":
                return [(st, args[0])]
            if bound[-1] != "STRICT":
                return [(st, self.undecided(st, "flags", node, cx, args[0]))]
            mask = 0
            for m in c.attrs.get("__members__", Tup(())).items:
                mask |= m if isinstance(m, int) else 0
            out = []
            for y, v in self.binop("BitAnd", args[0], ~mask, st, cx, node):
                for z, b in self.equal(v, 0, y, cx, node):
                    if b:
                        out.append((z, args[0]))
                    else:
                        self.throw(z, "ValueError", "invalid value", node, cx)
            return out
        if any(f.startswith("enum.") for f in c.flags):
            mem = c.attrs.get("__members__", Tup(()))
            if len(args) == 1:
                cur = [st]
                out = []
                for m in mem.items:
                    nxt = []
                    for x in cur:
                        mv = x.get(m).attrs["value"] if isinstance(m, Ref) else m
                        if same(args[0], m):
                            out.append((x, m))
                            continue
                        for y, b in self.equal(args[0], mv, x, cx, node):
                            if b:
                                out.append((y, m))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    self.throw(x, "ValueError", "not a valid member", node, cx)
                return out
        if "namedtuple" in c.flags:
            flds = self.find_attr(st, ref, "_fields").items
            vals = dict(zip(flds, args))
            vals.update(kw)
            for k in flds:
                if k not in vals and k in c.attrs:
                    vals[k] = c.attrs[k]
            if len(vals) != len(flds) or len(args) > len(flds):
                return self.throw(st, "TypeError", "wrong arguments", node, cx)
            return [(st, Tup([vals[k] for k in flds], cls=ref))]
        inst = st.new(Inst(ref, {}))
        new = self.find_attr(st, ref, "__new__")
        if new is not None:
            st.mark("__new__")
        if "dataclass" in c.flags and "__init__" not in c.attrs:
            flds = []
            defaults = {}
            for k in reversed(c.mro):
                if isinstance(k, Ref):
                    ko = st.get(k)
                    if "dataclass" in ko.flags:
                        for fld in ko.attrs.get("__annotations__", Tup(())).items:
                            if fld not in flds:
                                flds.append(fld)
                            if fld in ko.attrs:
                                defaults[fld] = ko.attrs[fld]
            vals = dict(zip(flds, args))
            vals.update(kw)
            cur = [(st, vals)]
            for k in flds:
                nxt = []
                for y, vs in cur:
                    if k not in vs and k in defaults:
                        d = defaults[k]
                        if isinstance(d, XO) and d.kind == "dcfield":
                            if d.args[0] is not None:
                                for z, v in self.call(d.args[0], [], {}, y, cx, node):
                                    nxt.append((z, {**vs, k: v}))
                                continue
                            d = d.args[1]
                        nxt.append((y, {**vs, k: d}))
                    else:
                        nxt.append((y, vs))
                cur = nxt
            out = []
            for y, vs in cur:
                if set(vs) != set(flds) or len(args) > len(flds):
                    self.throw(y, "TypeError", "wrong arguments", node, cx)
                    continue
                y.put(inst, Inst(ref, dict(vs)))
                post = self.find_attr(y, ref, "__post_init__")
                if post is not None:
                    out += [(z, inst) for z, _ in self.call(post, [inst], {}, y, cx, node)]
                else:
                    out.append((y, inst))
            return out
        init = self.find_attr(st, ref, "__init__")
        exc = any(isinstance(x, Ext) and x.name == "BaseException" for x in c.mro)
        if exc:
            st.put(inst, Inst(ref, {"args": Tup(args)}))
        if init is None:
            if not exc and (args or kw):
                for x in c.mro:
                    if isinstance(x, Ext) and x.name in ("dict", "list", "tuple", "str", "int", "bytes", "set"):
                        st.mark(f"instance of a subclass of {x.name}")
                        return [(st, Unk("builtin subclass instance"))]
                ext = [x for x in c.mro if isinstance(x, Ext) and x.name != "object"]
                if not ext:
                    return self.throw(st, "TypeError", f"{c.name}() takes no arguments", node, cx)
            return [(st, inst)]
        return [(y, inst) for y, _ in self.call(init, [inst] + list(args), kw, st, cx, node)]


def dset(items, k, v):
    out = []
    hit = False
    for a, b in items:
        if same(a, k):
            out.append((a, v))
            hit = True
        else:
            out.append((a, b))
    if not hit:
        out.append((k, v))
    return out


def join_ctl(res):
    if len(res) < 2:
        return res
    groups = {}
    for st, ctl in res:
        key = ctl if isinstance(ctl, str) or ctl is None else "ret"
        groups.setdefault(key, []).append((st, ctl))
    out = []
    for key, g in groups.items():
        if len(g) < 2:
            out += g
            continue
        if key == "ret":
            out += [(s, ("ret", v)) for s, v in join([(s, c[1]) for s, c in g])]
        else:
            out += join(g)
    return out
