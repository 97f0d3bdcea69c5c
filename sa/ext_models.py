"""Transfer functions of library calls: hashing, scrypt, AES, secp256k1,
randomness, Base58 (by contract) and the part of the standard library that code
of this kind uses.  Anything not modelled becomes an unknown value."""
import builtins as _pyb
import binascii
import importlib
import string as _string
import struct as _struct
import words
import re as _re
import unicodedata as _ud

from terms import *
from core import *
import terms as _t

PYEXC_N = {n for n, v in vars(_pyb).items() if isinstance(v, type) and issubclass(v, BaseException)}
PYTYPES_N = {"int": int, "str": str, "bytes": bytes, "bool": bool, "float": float, "tuple": tuple, "list": list,
             "dict": dict, "set": set, "frozenset": frozenset, "bytearray": bytearray, "object": object}

DIGESTS = {"sha256": 32, "sha512": 64, "sha1": 20, "md5": 16, "ripemd160": 20, "sha224": 28, "sha384": 48,
           "sha3_256": 32, "sha3_512": 64, "blake2b": 64, "blake2s": 32}

MALFORMED = Ext("ecdsa.errors.MalformedPointError")
CURVE_P = _t.P

# sources whose values an attacker can predict
PURE = ("html", "urllib.parse", "textwrap", "base64", "zlib", "quopri", "string", "shlex", "json")
TEXTFUN = ("html.unescape", "html.escape", "urllib.parse.unquote", "urllib.parse.unquote_plus", "urllib.parse.quote",
           "urllib.parse.quote_plus", "textwrap.dedent", "string.capwords", "shlex.quote")
PREDICTABLE = ("random.", "time.", "datetime.", "uuid.", "os.getpid", "os.times", "id", "hash")

DECLENS = tuple(range(0, 71)) + (84, 85, 200)

UTF8 = {"utf8", "utf-8", "UTF-8", "utf_8", "UTF8", "U8"}
ASCII = {"ascii", "us-ascii", "ASCII", "US-ASCII"}
LATIN = {"latin-1", "latin1", "iso-8859-1", "iso8859-1", "L1", "latin_1"}


def isint(v):
    return isinstance(v, (int, SI))


def isconst(v):
    return v is None or isinstance(v, (int, str, bytes, float, bool))


class ExtModels:
    def init_ext(self):
        self.pyexc = PYEXC_N
        self.DIGEST = DIGESTS
        self.primnodes = {}
        self.decode_bad = None
        self.primlog = set()

    # ------------------------------------------------------------ primitives
    def install_primitives(self, st):
        """functions analysed by contract: Base58 and the bundled RIPEMD-160;
        the contracts themselves are obligations of C13 and C24"""
        if not self.primitives:
            return
        for mod, name, prim in (("bip38.libs.base58", "encode", "b58encode"),
                                ("bip38.libs.base58", "decode", "b58decode"),
                                ("bip38.libs.ripemd160", "ripemd160", "ripemd160")):
            m = self.modrefs.get(mod)
            f = st.get(m).vars.get(name) if m is not None else None
            if isinstance(f, XO) and f.kind == "cached":
                f = f.args[0]
            if isinstance(f, Func):
                self.primnodes[f.node] = prim
                if prim == "b58decode":
                    self.decode_func = f

    def call_primfunc(self, f, prim, args, kw, st, cx, node):
        """contract of a primitive function, or None to analyse its body"""
        vars = self.bind_args(f, args, kw, st, cx, node)
        if vars is None:
            return None
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if any(n not in names[:2] for n in vars):
            return None
        data = self.unwrap(vars[names[0]], st)
        self.primlog.add(prim)
        if prim == "ripemd160":
            if isbytes(data) and len(names) == 1:
                if isinstance(data, bytes):
                    return None
                return [(st, ripemd160(data))]
            return None
        if len(names) < 2:
            return None
        alpha = vars[names[1]]
        if isinstance(alpha, Unk) or isinstance(data, Unk):
            return [(st, Unk(f"{f.name} of an unknown value", taint(data) | taint(alpha)))]
        if not isinstance(alpha, str) or len(alpha) != 58:
            if not (isinstance(alpha, SS)):
                return None
        if prim == "b58encode":
            if isinstance(data, bytes) and isinstance(alpha, str):
                return None
            if isbytes(data):
                return [(st, b58enc(alpha, data))]
            return None
        if isinstance(data, str):
            return None if isinstance(alpha, str) else \
                [(st, self.undecided(st, "decode with a symbolic alphabet", node, cx))]
        if isstr(data):
            return self.b58decode(data, alpha, st, cx, node)
        return None

    def b58decode(self, s, alpha, st, cx, node):
        t = sterm(s)
        if t is not None and t.kind == "b58" and t.args[0] == alpha:
            return [(st, t.args[1])]
        if t is not None and t.kind == "b58" or not isinstance(alpha, str):
            # text over another alphabet: it may or may not be readable
            pass
        key = ("b58", s, alpha)
        out = []
        for y, ok in st.branch(("flag", ("b58valid",) + key)):
            if not ok:
                exc, accepts = self.invalid_outcome(y)
                k = 0
                for i, c in enumerate(exc):
                    z = y.fork() if (i < len(exc) - 1 or accepts) else y
                    # which of the outcomes it is depends on the string
                    if len(exc) + accepts > 1:
                        if not z.assume(("choice", ("badkind",) + key, i), True):
                            continue
                    self.throw(z, c, "", node, cx)
                if accepts:
                    if len(exc):
                        if not y.assume(("choice", ("badkind",) + key, "accepted"), True):
                            continue
                    out += self._dec_lens(("decbad",) + key, s, alpha, y, bad=True)
                continue
            out += self._dec_lens(("declen",) + key, s, alpha, y)
        return out

    def _dec_lens(self, key, s, alpha, st, bad=False):
        cur = st.store.flag.get(key)
        if cur is not None and cur[0] == "is":
            n = cur[1]
            return [(st, self._dec_val(s, alpha, n, bad))]
        out = []
        for n in DECLENS:
            y = st.fork()
            if y.assume(("choice", key, n), True):
                out.append((y, self._dec_val(s, alpha, n, bad)))
        return out

    @staticmethod
    def _dec_val(s, alpha, n, bad):
        if n == 0:
            return b""
        if bad:
            return tbytes(T("decbad", s, alpha, n, size=n))
        return tbytes(T("dec", s, alpha, n, size=n))

    def invalid_outcome(self, st):
        """what base58.decode does with characters outside the alphabet:
        (exception classes, does it accept any of them)"""
        if self.decode_bad is None:
            self.decode_bad = ((Ext("ValueError"),), False)
            f = getattr(self, "decode_func", None)
            if f is not None:
                try:
                    self.decode_bad = self._invalid_outcome(f, st)
                except (TooComplex, AnalysisBroken, RecursionError):
                    pass
        return self.decode_bad

    def _invalid_outcome(self, f, st):
        from interp import Cx
        alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
        exc, accepts = [], False
        save = dict(self.primnodes)
        self.primnodes.clear()
        try:
            base = State()
            base.base, base.heap, base.nref, base.boundary = st.base, {}, st.nref, st.nref
            base.heap = dict(st.heap)
            cx = Cx(None, None, f.file, f.mod, "base58")
            probes = []
            b = T("in", "badchar", size=1)
            ch = SS((T("ch", tbytes(b)),))
            good = SS((T("ch", tbytes(T("in", "goodchar", size=1))),))
            for s in (ch, scat(good, ch), scat(ch, good), "\u00e9", "a\u00e9", "\u00e9a"):
                y = base.fork()
                ok = True
                mask = frozenset(range(128)) - frozenset(map(ord, alpha))
                ok &= y.assume(("in", tbits(b), mask), True)
                ok &= y.assume(("in", tbits(T("in", "goodchar", size=1)), frozenset(map(ord, alpha))), True)
                if not ok:
                    continue
                self.sinks.append([])
                res = self.call(f, [s], {}, y, cx, None)
                raised = self.sinks.pop()
                for z, e, w in raised:
                    if z.imprecise:
                        continue
                    c = z.get(e).cls
                    if c not in exc:
                        exc.append(c)
                for z, v in res:
                    if not z.imprecise:
                        accepts = True
        finally:
            self.primnodes.update(save)
        exc = [c for c in exc if isinstance(c, Ext) or isinstance(c, Ref) and c.id in st.base]
        return tuple(exc) or (Ext("ValueError"),), accepts

    def call_prim(self, f, args, kw, st, cx, node):
        return self.call(f.args[0], args, kw, st, cx, node)

    # ------------------------------------------------------------ names
    def ext(self, name):
        from interp import EXT_ALIAS
        return Ext(EXT_ALIAS.get(name, name))

    CONSTS = {
        "sys.maxsize": 2 ** 63 - 1, "sys.byteorder": "little", "typing.TYPE_CHECKING": False,
        "string.ascii_letters": _string.ascii_letters, "string.digits": _string.digits,
        "string.hexdigits": _string.hexdigits, "string.ascii_lowercase": _string.ascii_lowercase,
        "string.ascii_uppercase": _string.ascii_uppercase, "string.printable": _string.printable,
        "string.whitespace": _string.whitespace, "six.PY2": False, "six.PY3": True,
        "os.linesep": "\n", "os.sep": "/", "os.name": "posix",
        "ecdsa.ecdsa._r": N, "ecdsa.ecdsa._p": CURVE_P,
        "ecdsa.curves.SECP256k1.order": N, "ecdsa.curves.SECP256k1.baselen": 32,
        "ecdsa.curves.SECP256k1.verifying_key_length": 64, "ecdsa.curves.SECP256k1.signature_length": 64,
        "ecdsa.curves.SECP256k1.name": "SECP256k1", "ecdsa.curves.SECP256k1.openssl_name": "secp256k1",
        **{"re." + n: int(getattr(_re, n)) for n in ("A", "ASCII", "I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "U",
                                                     "UNICODE", "X", "VERBOSE", "L", "LOCALE")},
        "math.pi": 3.141592653589793, "math.inf": float("inf"),
    }

    ATTR_ALIAS = {
        "ecdsa.curves.SECP256k1.curve": "ecdsa.ecdsa.curve_secp256k1",
        "ecdsa.ecdsa.ellipticcurve": "ecdsa.ellipticcurve",
        "ecdsa.keys.ellipticcurve": "ecdsa.ellipticcurve",
        "ecdsa.keys.MalformedPointError": "ecdsa.errors.MalformedPointError",
        "pyaes.aes": "pyaes",
        "pyaes.blockfeeder": "pyaes",
        "six.integer_types": None,
    }

    def ext_attr(self, mod, name, st):
        from interp import EXT_ALIAS
        full = EXT_ALIAS.get(mod, mod) + "." + name
        full = EXT_ALIAS.get(full, full)
        full = self.ATTR_ALIAS.get(full, full) or full
        if full in self.CONSTS:
            return self.CONSTS[full]
        if full == "six.string_types":
            return Tup((Ext("str"),))
        if full == "six.integer_types":
            return Tup((Ext("int"),))
        if full in ("six.binary_type", "typing.ByteString"):
            return Ext("bytes")
        if full == "six.text_type":
            return Ext("str")
        if full == "sys.version_info":
            return Tup((3, 12, 3, "final", 0))
        if full in ("ecdsa.ecdsa.generator_secp256k1", "ecdsa.curves.SECP256k1.generator"):
            return XO("jac", G)
        if full == "ecdsa.ellipticcurve.INFINITY":
            return XO("inf")
        if mod == "builtins" and (name in PYTYPES_N or hasattr(_pyb, name)):
            return Ext(name)
        if full == "io.BytesIO" and "$io" in self.modrefs:
            return st.get(self.modrefs["$io"]).vars["BytesIO"]
        if mod in PYTYPES_N and name in ("__name__", "__qualname__"):
            return mod
        return Ext(full)

    # ------------------------------------------------------------ calling externals
    def call_ext(self, f, args, kw, st, cx, node):
        name = f.name
        m = getattr(self, "f_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(args, kw, st, cx, node)
            if r is not None:
                return r
            return [(st, self.undecided(st, f"{name} with unsupported arguments", node, cx,
                                        Tup(tuple(args) + tuple(kw.values()))))]
        if name in self.pyexc or self.is_ext_exc(name):
            e = st.new(Inst(f, {"args": Tup(args)}))
            return [(st, e)]
        head, _, meth = name.rpartition(".")
        if head in PYTYPES_N and args:
            if meth == "__init__":
                return self.call_bound(Bound(args[0], "__init__"), list(args[1:]), kw, st, cx, node)
            return self.call_bound(Bound(args[0], meth), list(args[1:]), kw, st, cx, node)
        if head in self.pyexc and args:
            return self.call_bound(Bound(args[0], meth), list(args[1:]), kw, st, cx, node)
        if head == "hashlib" and meth in DIGESTS:
            return self.hash_new(meth, args, kw, st, cx, node)
        if name.startswith(("typing.", "abc.", "types.")):
            return self.typing_call(name, args, kw, st, cx, node)
        if head in PURE:
            r = self.pure_const(name, args, kw, st, cx, node)
            if r is not None:
                return r
        if head in ("math", "unicodedata", "re"):
            r = self.math_const(meth, args, st, cx, node) if head == "math" else \
                self.ud_const(meth, args, st, cx, node) if head == "unicodedata" else \
                self.re_call(meth, args, kw, st, cx, node) if meth in self.RE_CALLS else None
            if r is not None:
                return r
        if name.startswith(PREDICTABLE[:4]) or name in PREDICTABLE[4:]:
            r = self.weak_random(name, args, kw, st)
            st.event("predictable", name, self.where(node, cx))
            return [(st, r)]
        return self.call_unknown(name, args, kw, st, cx, node)

    def is_ext_exc(self, name):
        from interp import EXT_BASES
        return name in EXT_BASES

    def typing_call(self, name, args, kw, st, cx, node):
        if name == "typing.cast" and len(args) == 2:
            return [(st, args[1])]
        if name in ("abc.abstractmethod", "typing.overload", "typing.final", "typing.no_type_check",
                    "typing.runtime_checkable", "typing.override") and args:
            return [(st, args[0])]
        if name == "types.MappingProxyType" and args:
            return [(st, args[0])]
        if name == "types.SimpleNamespace" and not args:
            c = st.new(None)
            st.heap[c.id] = Cls("SimpleNamespace", "types.SimpleNamespace", (), {}, (c, Ext("object")), ())
            return [(st, st.new(Inst(c, dict(kw))))]
        if name == "typing.NewType" and len(args) == 2:
            return [(st, XO("identity"))]
        return [(st, Ext("typing.Any"))]

    def weak_random(self, name, args, kw, st):
        t = frozenset(["predictable:" + name])
        if name in ("random.Random", "numpy.random.RandomState"):
            return XO("weakrng", name)
        r = self.weak_bytes(name, name.rpartition(".")[2], args, st)
        if r is not None:
            return r
        if name in ("uuid.uuid1", "uuid.uuid4", "uuid.uuid6", "uuid.uuid7"):
            st.draws += 1
            return XO("uuid", tbytes(T("weak", name, st.draws, size=16)))
        if name in ("time.time_ns", "time.monotonic_ns", "time.perf_counter_ns", "time.process_time_ns"):
            return self.weak_int(name, 61, st)
        if name in ("os.getpid",):
            return self.weak_int(name, 22, st)
        if name in ("hash", "id"):
            return self.weak_int(name, 61, st)
        return Unk(f"result of {name}", t | taint(Tup(args)))

    def weak_bytes(self, source, meth, args, st):
        r = self.weak_range(source, meth, args, st)
        if r is not None:
            return iadd(self.weak_int(source, (r[1] - r[0]).bit_length(), st), r[0])
        n = args[0] if len(args) == 1 else None
        if not isinstance(n, int) or isinstance(n, bool) or n <= 0:
            return None
        if meth == "randbytes":
            st.draws += 1
            return tbytes(T("weak", source, st.draws, size=n))
        if meth == "getrandbits":
            return self.weak_int(source, n, st)
        return None

    def weak_int(self, source, n, st):
        st.draws += 1
        return int_bits(tbytes(T("weak", source, st.draws, size=(n + 7) // 8)).bits[-n:]) if n else 0

    def weak_range(self, source, meth, args, st):
        """a number from a range, or the elements chosen from one"""
        if not all(isinstance(a, int) for a in args):
            return None
        if meth == "randint" and len(args) == 2:
            lo, hi = args
        elif meth == "randrange" and len(args) in (1, 2):
            lo, hi = (0, args[0] - 1) if len(args) == 1 else (args[0], args[1] - 1)
        elif meth in ("randbelow", "_randbelow") and len(args) == 1:
            lo, hi = 0, args[0] - 1
        else:
            return None
        if hi < lo:
            return None
        return lo, hi

    def f_random_SystemRandom(self, args, kw, st, cx, node):
        return [(st, XO("sysrng"))]

    f_secrets_SystemRandom = f_random_SystemRandom

    # ---- builtins ------------------------------------------------------
    def f___import__(self, args, kw, st, cx, node):
        n = args[0] if args else kw.get("name")
        if not isinstance(n, str) or n.split(".")[0] == self.package or len(args) > 4:
            return None
        return [(st, self.ext(n.split(".")[0]))]

    def f_importlib_import_module(self, args, kw, st, cx, node):
        n = args[0] if args else kw.get("name")
        if not isinstance(n, str) or n.startswith(".") or n.split(".")[0] == self.package:
            return None
        return [(st, self.ext(n))]

    def f_int(self, args, kw, st, cx, node):
        if not args:
            return [(st, 0)]
        v = self.unwrap(args[0], st)
        base = args[1] if len(args) > 1 else kw.get("base")
        if isinstance(v, Unk):
            return [(st, Unk("int of unknown", v.taint))]
        if base is None and isinstance(v, XO) and v.kind == "ratio":
            out = []
            for y, neg in self.compare("Lt", v.args[0], 0, st, cx, node):
                out += self.f_math_ceil([v], {}, y, cx, node) if neg else self.f_math_floor([v], {}, y, cx, node)
            return out
        if base is None:
            if isinstance(v, bool):
                return [(st, int(v))]
            if isint(v):
                return [(st, v)]
            if isinstance(v, float):
                return [(st, int(v))]
        if isinstance(v, (str, bytes)) and (base is None or isinstance(base, int)):
            try:
                return [(st, int(v, base) if base is not None else int(v))]
            except ValueError:
                return self.throw(st, "ValueError", "invalid literal for int()", node, cx)
        if isinstance(v, SS) and base == 16:
            t = sterm(v)
            if t is not None and t.kind == "hex" and fixed(t.args[0]):
                return [(st, int_bits(vbits(t.args[0])))]
            if t is not None and t.kind == "hexint":
                return [(st, t.args[0])]
            if len(v.parts) == 2 and v.parts[0] == "0x" and isinstance(v.parts[1], Term):
                if v.parts[1].kind == "hexint":
                    return [(st, v.parts[1].args[0])]
        if isinstance(v, VB) and base == 16:
            s = self.decode_bytes(v)
            if s is not None:
                return self.f_int([s, 16], {}, st, cx, node)
        if isinstance(v, SS) and base in (None, 10):
            t = sterm(v)
            if t is not None and t.kind == "fmt" and isint(t.args[0]):
                return [(st, t.args[0])]
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            m = self.find_attr(st, st.get(v).cls, "__int__") or self.find_attr(st, st.get(v).cls, "__index__")
            if m is not None:
                return self.call(m, [v], {}, st, cx, node)
        if isinstance(v, SS):
            # an opaque string: a number or not
            out = []
            digits = base in (None, 10) and any(
                val and f[:1] == ("strpred",) and f[1] in ("isdigit", "isdecimal") and f[2] == v and (
                    f[1] == "isdecimal" or st.store.flag.get(("strpred", "isascii", v)) is True or sterm(v) is not None and
                    sterm(v).kind in ("hex", "b58"))
                for f, val in st.store.flag.items() if isinstance(f, tuple))
            if digits:
                return [(st, iatom(T("strint", v, base)))]
            for y, ok in st.branch(("flag", ("isint", v, base))):
                if ok:
                    out.append((y, iatom(T("strint", v, base))))
                else:
                    self.throw(y, "ValueError", "invalid literal for int()", node, cx)
            return out
        if v is None or isinstance(v, (Tup, Ref, Func, Ext)):
            return self.throw(st, "TypeError", "int() argument must be a string or a number", node, cx)
        return None

    def f_os_getenv(self, args, kw, st, cx, node):
        name = args[0] if args else kw.get("key")
        if not isinstance(name, str):
            return [(st, Unk("environment variable", taint(Tup(tuple(args)))))]
        rest = args[1] if len(args) > 1 else kw.get("default")
        return [(y, self.env_text(name) if ok else rest) for y, ok in self.env_set(name, st)]

    f_os_environ_get = f_os_getenv

    def f_bool(self, args, kw, st, cx, node):
        if not args:
            return [(st, False)]
        return self.truth(args[0], st, cx, node)

    def f_float(self, args, kw, st, cx, node):
        if args and isinstance(args[0], (int, float, str)):
            try:
                return [(st, float(args[0]))]
            except ValueError:
                return self.throw(st, "ValueError", "float", node, cx)
        return [(st, Unk("float", taint(Tup(args))))]

    def f_str(self, args, kw, st, cx, node):
        if not args:
            return [(st, "")]
        v = self.unwrap(args[0], st)
        if len(args) > 1 or kw:
            enc = args[1] if len(args) > 1 else kw.get("encoding", "utf-8")
            return self.bytes_decode(v, enc, st, cx, node)
        return self.to_str(args[0], st, cx, node)

    def f_repr(self, args, kw, st, cx, node):
        return self.format_value(args[0], "", "r", st, cx, node)

    def f_ascii(self, args, kw, st, cx, node):
        return self.format_value(args[0], "", "a", st, cx, node)

    def f_format(self, args, kw, st, cx, node):
        return self.format_value(args[0], args[1] if len(args) > 1 else "", "", st, cx, node)

    def f_hex(self, args, kw, st, cx, node):
        v = args[0]
        if isinstance(v, int):
            return [(st, hex(v))]
        if isinstance(v, SI):
            return [(st, scat("0x", SS((T("hexint", v),))))]
        if isinstance(v, Unk):
            return [(st, Unk("hex", v.taint))]
        return self.throw(st, "TypeError", "hex()", node, cx)

    def f_bin(self, args, kw, st, cx, node):
        if isinstance(args[0], int):
            return [(st, bin(args[0]))]
        if isinstance(args[0], SI):
            lo, hi = st.store.rng(args[0])
            if lo is not None and lo >= 0:
                return [(st, scat("0b", SS((T("binint", args[0]),))))]
        return None

    def f_oct(self, args, kw, st, cx, node):
        if isinstance(args[0], int):
            return [(st, oct(args[0]))]
        return None

    def f_bytes(self, args, kw, st, cx, node):
        if not args:
            return [(st, b"")]
        v = self.unwrap(args[0], st)
        if isstr(v):
            enc = args[1] if len(args) > 1 else kw.get("encoding")
            if enc is None:
                return self.throw(st, "TypeError", "string argument without an encoding", node, cx)
            return self.str_encode(v, enc, st, cx, node, args[2] if len(args) > 2 else kw.get("errors", "strict"))
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            if v < 0:
                return self.throw(st, "ValueError", "negative count", node, cx)
            return [(st, bytes(v))] if v < 1 << 20 else None
        if isinstance(v, SI):
            return self.binop("Mult", b"\0", v, st, cx, node)
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            m = self.find_attr(st, st.get(v).cls, "__bytes__")
            if m is not None:
                return self.call(m, [v], {}, st, cx, node)
        return self.to_bytes_like(v, st, cx, node)

    def f_bytearray(self, args, kw, st, cx, node):
        r = self.f_bytes(args, kw, st, cx, node)
        if r is None:
            return None
        return [(y, y.new(BAObj(b)) if isbytes(b) else b) for y, b in r]

    def f_memoryview(self, args, kw, st, cx, node):
        return [(y, XO("memoryview", b) if isbytes(b) else b)
                for y, b in self.to_bytes_like(args[0], st, cx, node)]

    def _seq(self, args, st, cx, node, make):
        if not args:
            return [(st, make(st, []))]
        out = []
        for y, items in self.iterate(args[0], st, cx, node):
            if items is None:
                t = self.unwrap(args[0], y)
                out.append((y, self.undecided(y, "sequence of an unknown iterable", node, cx, t)))
            else:
                out.append((y, make(y, items)))
        return out

    def f_list(self, args, kw, st, cx, node):
        return self._seq(args, st, cx, node, lambda s, i: s.new(LObj(i)))

    def f_tuple(self, args, kw, st, cx, node):
        return self._seq(args, st, cx, node, lambda s, i: Tup(i))

    def f_set(self, args, kw, st, cx, node):
        return self._seq(args, st, cx, node, lambda s, i: s.new(SetObj(self.dedup(i))))

    def f_frozenset(self, args, kw, st, cx, node):
        return self._seq(args, st, cx, node, lambda s, i: s.new(SetObj(self.dedup(i), True)))

    def f_iter(self, args, kw, st, cx, node):
        return self._seq(args[:1], st, cx, node, lambda s, i: s.new(IterObj(i)))

    def f_reversed(self, args, kw, st, cx, node):
        return self._seq(args, st, cx, node, lambda s, i: s.new(IterObj(list(i)[::-1])))

    def f_next(self, args, kw, st, cx, node):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v), IterObj):
            o = st.get(v)
            if o.pos < len(o.items):
                st.put(v, IterObj(o.items, o.pos + 1), self.where(node, cx))
                return [(st, o.items[o.pos])]
            if len(args) > 1:
                return [(st, args[1])]
            return self.throw(st, "StopIteration", "", node, cx)
        if isinstance(v, Ref) and isinstance(st.get(v), EndlessObj):
            o = st.get(v)
            st.put(v, EndlessObj(o.kind, o.items, o.pos + 1), self.where(node, cx))
            return [(st, o.at(o.pos))]
        return None

    def f_itertools_cycle(self, args, kw, st, cx, node):
        out = []
        for y, i in self.iterate(args[0], st, cx, node):
            if i is None:
                out.append((y, self.undecided(y, "cycle of unknown", node, cx)))
            else:
                out.append((y, y.new(EndlessObj("cycle", i) if i else IterObj(()))))
        return out

    def f_itertools_count(self, args, kw, st, cx, node):
        a = args[0] if args else kw.get("start", 0)
        b = args[1] if len(args) > 1 else kw.get("step", 1)
        if isint(a) and isint(b):
            return [(st, st.new(EndlessObj("count", (a, b))))]
        return None

    def f_dict(self, args, kw, st, cx, node):
        from interp import dset
        items = []
        out = []
        if args:
            a = args[0]
            if isinstance(a, Ref) and isinstance(st.get(a), DObj):
                pairs = [(st, list(st.get(a).items))]
            else:
                pairs = []
                for y, its in self.iterate(a, st, cx, node):
                    if its is None:
                        pairs.append((y, None))
                        continue
                    acc = []
                    for it in its:
                        its2 = self.iterate(it, y, cx, node)
                        if len(its2) != 1 or its2[0][1] is None or len(its2[0][1]) != 2:
                            acc = None
                            break
                        acc.append(tuple(its2[0][1]))
                    pairs.append((y, acc))
        else:
            pairs = [(st, [])]
        for y, ps in pairs:
            if ps is None:
                out.append((y, self.undecided(y, "dict of an unknown value", node, cx)))
                continue
            items = []
            for k, v in ps:
                items = dset(items, k, v)
            for k, v in kw.items():
                items = dset(items, k, v)
            out.append((y, y.new(DObj(items))))
        return out

    def f_len(self, args, kw, st, cx, node):
        v = args[0]
        if isinstance(v, Unk):
            return [(st, Unk("length", v.taint))]
        if isinstance(v, SS):
            t = [p for p in v.parts if isinstance(p, Term) and p.kind in ("hexint", "binint")]
            if len(t) == 1 and all(isinstance(p, str) or p is t[0] for p in v.parts):
                more = sum(len(p) for p in v.parts if isinstance(p, str))
                return [(y, iadd(n, more)) for y, n in self.digits(t[0], st, cx, node)]
        n = self.length(v, st)
        if n is not None:
            return [(st, n)]
        if isinstance(v, XO) and v.kind == "memoryview":
            return [(st, self.length(v.args[0], st))]
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            m = self.find_attr(st, st.get(v).cls, "__len__")
            if m is not None:
                return self.call(m, [v], {}, st, cx, node)
        if isinstance(v, Ref) and isinstance(st.get(v), Cls) and "__members__" in st.get(v).attrs:
            return [(st, len(st.get(v).attrs["__members__"].items))]
        if isinstance(v, Ext) or isinstance(v, XO):
            return None
        return self.throw(st, "TypeError", "object has no len()", node, cx)

    def digits(self, t, st, cx, node):
        """the number of digits of a formatted number"""
        b = 4 if t.kind == "hexint" else 1
        lo, hi = st.store.rng(t.args[0])
        if lo is None or lo < 0 or hi is None:
            return [(st, iatom(T("strlen", t)))]
        out = []
        for y, n in self.bit_length(t.args[0], st, cx, node):
            if isinstance(n, Unk):
                out.append((y, n))
                continue
            lo, hi = (n, n) if isinstance(n, int) else y.store.rng(n)
            lo, hi = max(1, (lo + b - 1) // b), max(1, (hi + b - 1) // b)
            s = T("strlen", t)
            r = self._bl(y, (((s,), 1),), s, lo, hi)
            if r is not None:
                out.append(r)
        return out

    def f_range(self, args, kw, st, cx, node):
        vs = []
        for a in args:
            if isinstance(a, SI):
                lo, hi = st.store.rng(a)
                if lo is not None and lo == hi:
                    a = lo
            vs.append(int(a) if isinstance(a, bool) else a)
        if all(isinstance(v, int) for v in vs):
            try:
                r = range(*vs)
            except ValueError:
                return self.throw(st, "ValueError", "range() arg 3 must not be zero", node, cx)
            return [(st, XO("range", r.start, r.stop, r.step))]
        if all(isint(v) for v in vs) and len(vs) <= 2:
            lo, hi = (0, vs[0]) if len(vs) == 1 else vs
            # a bound with few possible values
            a, b = st.store.rng(hi)
            if isinstance(lo, int) and a is not None and b is not None and b - a <= 64:
                out = []
                cur = [st]
                for i in range(a, b + 1):
                    nxt = []
                    for s in cur:
                        for y, eq in self.equal(hi, i, s, cx, node):
                            if eq:
                                out.append((y, XO("range", lo, i, 1)))
                            else:
                                nxt.append(y)
                    cur = nxt
                return out
            return [(st, XO("srange", lo, hi))]
        return self.throw(st, "TypeError", "range()", node, cx) if not any(isinstance(v, Unk) for v in vs) else None

    def f_enumerate(self, args, kw, st, cx, node):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        return self._seq(args[:1], st, cx, node,
                         lambda s, i: s.new(IterObj([Tup((iadd(start, k), v)) for k, v in enumerate(i)])))

    def f_zip(self, args, kw, st, cx, node):
        cur = [(st, [])]
        for a in args:
            nxt = []
            for y, acc in cur:
                if isinstance(a, Ref) and isinstance(y.get(a), EndlessObj):
                    nxt.append((y, acc + [a]))
                    continue
                for z, items in self.iterate(a, y, cx, node):
                    nxt.append((z, acc + [items]))
            cur = nxt
        out = []
        for y, acc in cur:
            if any(isinstance(i, Ref) for i in acc) and not all(i is None or isinstance(i, Ref) for i in acc):
                n = min(len(i) for i in acc if not isinstance(i, Ref) and i is not None)
                for j, i in enumerate(acc):
                    if isinstance(i, Ref):
                        o = y.get(i)
                        y.put(i, EndlessObj(o.kind, o.items, o.pos + n), self.where(node, cx))
                        acc[j] = [o.at(o.pos + q) for q in range(n)]
            if any(i is None or isinstance(i, Ref) for i in acc):
                out.append((y, self.undecided(y, "zip of unknown", node, cx)))
            else:
                if kw.get("strict") is True and len({len(i) for i in acc}) > 1:
                    self.throw(y, "ValueError", "zip() argument lengths differ", node, cx)
                    continue
                out.append((y, y.new(IterObj([Tup(t) for t in zip(*acc)]))))
        return out

    def f_map(self, args, kw, st, cx, node):
        cur = [(st, [])]
        for a in args[1:]:
            nxt = []
            for y, acc in cur:
                for z, items in self.iterate(a, y, cx, node):
                    nxt.append((z, acc + [items]))
            cur = nxt
        out = []
        for y, acc in cur:
            if any(i is None for i in acc):
                out.append((y, self.undecided(y, "map over unknown", node, cx)))
                continue
            c = [(y, [])]
            for tup in zip(*acc):
                nxt = []
                for z, a in c:
                    for w, v in self.call(args[0], list(tup), {}, z, cx, node):
                        nxt.append((w, a + [v]))
                c = nxt
            out += [(z, z.new(IterObj(a))) for z, a in c]
        return out

    def f_filter(self, args, kw, st, cx, node):
        out = []
        for y, items in self.iterate(args[1], st, cx, node):
            if items is None:
                out.append((y, self.undecided(y, "filter over unknown", node, cx)))
                continue
            c = [(y, [])]
            for it in items:
                nxt = []
                for z, a in c:
                    rs = [(z, it)] if args[0] is None else self.call(args[0], [it], {}, z, cx, node)
                    for w, v in rs:
                        for q, b in self.truth(v, w, cx, node):
                            nxt.append((q, a + [it] if b else a))
                c = nxt
            out += [(z, z.new(IterObj(a))) for z, a in c]
        return out

    def f_functools_reduce(self, args, kw, st, cx, node):
        out = []
        for y, items in self.iterate(args[1], st, cx, node):
            if items is None:
                out.append((y, self.undecided(y, "reduce over unknown", node, cx)))
                continue
            items = list(items)
            if len(args) > 2:
                acc = args[2]
            elif items:
                acc = items.pop(0)
            else:
                self.throw(y, "TypeError", "reduce() of empty iterable", node, cx)
                continue
            c = [(y, acc)]
            for it in items:
                c = [(w, v) for z, a in c for w, v in self.call(args[0], [a, it], {}, z, cx, node)]
            out += c
        return out

    def f_sorted(self, args, kw, st, cx, node):
        out = []
        for y, items in self.iterate(args[0], st, cx, node):
            if items is None or not all(isconst(i) for i in items) or kw.get("key") is not None:
                if items is not None and len(items) < 2:
                    out.append((y, y.new(LObj(items))))
                    continue
                out.append((y, self.undecided(y, "sorted", node, cx, args[0])))
                continue
            try:
                r = sorted(items, reverse=bool(kw.get("reverse", False)))
            except TypeError:
                self.throw(y, "TypeError", "unorderable", node, cx)
                continue
            out.append((y, y.new(LObj(r))))
        return out

    def f_sum(self, args, kw, st, cx, node):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        out = []
        for y, items in self.iterate(args[0], st, cx, node):
            if items is None:
                out.append((y, self.undecided(y, "sum over unknown", node, cx, args[0])))
                continue
            c = [(y, start)]
            for it in items:
                c = [(w, v) for z, a in c for w, v in self.binop("Add", a, it, z, cx, node)]
            out += c
        return out

    def _minmax(self, op, args, kw, st, cx, node):
        if kw.get("key") is not None:
            return None
        if len(args) == 1:
            seqs = self.iterate(args[0], st, cx, node)
        else:
            seqs = [(st, list(args))]
        out = []
        for y, items in seqs:
            if items is None:
                out.append((y, self.undecided(y, "min/max", node, cx)))
                continue
            if not items:
                if "default" in kw:
                    out.append((y, kw["default"]))
                else:
                    self.throw(y, "ValueError", "empty sequence", node, cx)
                continue
            c = [(y, items[0])]
            for it in items[1:]:
                nxt = []
                for z, a in c:
                    for w, b in self.compare(op, it, a, z, cx, node):
                        nxt.append((w, it if b else a))
                c = nxt
            out += c
        return out

    def f_min(self, args, kw, st, cx, node):
        return self._minmax("Lt", args, kw, st, cx, node)

    def f_max(self, args, kw, st, cx, node):
        return self._minmax("Gt", args, kw, st, cx, node)

    def f_any(self, args, kw, st, cx, node, want=True):
        out = []
        for y, items in self.iterate(args[0], st, cx, node):
            if items is None:
                out += self.fork_unknown(y, "any/all over unknown", cx, node)
                continue
            cur = [y]
            for it in items:
                nxt = []
                for z in cur:
                    for w, b in self.truth(it, z, cx, node):
                        if b == want:
                            out.append((w, want))
                        else:
                            nxt.append(w)
                cur = nxt
            out += [(z, not want) for z in cur]
        return join(out)

    def f_all(self, args, kw, st, cx, node):
        return self.f_any(args, kw, st, cx, node, want=False)

    def f_abs(self, args, kw, st, cx, node):
        v = args[0]
        if isinstance(v, (int, float)):
            return [(st, abs(v))]
        if isinstance(v, SI):
            return [(y, ineg(v) if b else v) for y, b in self.compare("Lt", v, 0, st, cx, node)]
        return None

    def f_ord(self, args, kw, st, cx, node):
        v = self.unwrap(args[0], st)
        if isinstance(v, (str, bytes)):
            if len(v) != 1:
                return self.throw(st, "TypeError", "ord() expected a character", node, cx)
            return [(st, ord(v))]
        if fixed(v) and len(v) == 1:
            return [(st, int_bits(vbits(v)))]
        t = sterm(v)
        if t is not None and t.kind == "ch":
            return [(st, int_bits(t.args[0].bits))]
        if t is not None and t.kind == "tabch" and all(ord(c) < 128 for c in t.args[0]):
            return [(st, int_bits(tbits(T("tabbyte", t.args[0].encode(), t.args[1], size=1))))]
        return None

    def f_chr(self, args, kw, st, cx, node):
        v = args[0]
        if isinstance(v, int):
            try:
                return [(st, chr(v))]
            except (ValueError, OverflowError):
                return self.throw(st, "ValueError", "chr()", node, cx)
        if isinstance(v, SI):
            b = self.bits_of(v, st)
            if b is not None and len(b) <= 7:
                return [(st, SS((T("ch", mkbytes((0,) * (8 - len(b)) + tuple(b))),)))]
            if b is not None and len(b) == 8:
                vs = st.store.values(b)
                if vs is not None and max(vs) < 128:
                    return [(st, SS((T("ch", mkbytes(tuple(b))),)))]
        return None

    def f_divmod(self, args, kw, st, cx, node):
        a, b = args
        if isinstance(a, Unk) or isinstance(b, Unk):
            return [(st, Tup((Unk("quotient", taint(a)), Unk("remainder", taint(a)))))]
        out = []
        for y, q in self.binop("FloorDiv", a, b, st, cx, node):
            for z, r in self.binop("Mod", a, b, y, cx, node):
                out.append((z, Tup((q, r))))
        return out

    def f_pow(self, args, kw, st, cx, node):
        if len(args) == 2:
            return self.binop("Pow", args[0], args[1], st, cx, node)
        a, b, m = args
        if all(isinstance(x, int) for x in args):
            try:
                return [(st, pow(a, b, m))]
            except ValueError:
                return self.throw(st, "ValueError", "pow", node, cx)
        if isinstance(b, int) and isinstance(m, int) and 0 <= b <= 4 and isint(a):
            r = 1
            for _ in range(b):
                r = imul(r, a)
            return self.int_op("Mod", r, m, st, cx, node)
        return [(st, iatom(T("powmod", a, b, m)))] if all(isint(x) for x in args) else None

    def f_round(self, args, kw, st, cx, node):
        if all(isinstance(a, (int, float)) for a in args):
            return [(st, round(*args))]
        if len(args) == 1 and isint(args[0]):
            return [(st, args[0])]
        if len(args) == 1 and isinstance(args[0], XO) and args[0].kind == "ratio":
            a, b = args[0].args
            out = []
            for y, q in self.binop("FloorDiv", a, b, st, cx, node):
                for z, r in self.binop("Mod", a, b, y, cx, node):
                    for w, less in self.compare("Lt", imul(r, 2), b, z, cx, node):
                        if less:
                            out.append((w, q))
                            continue
                        for x, tie in self.equal(imul(r, 2), b, w, cx, node):
                            if not tie:
                                out.append((x, iadd(q, 1)))
                                continue
                            for u, m in self.binop("Mod", q, 2, x, cx, node):
                                out.append((u, iadd(q, m)))
            return out
        return None

    def f_type(self, args, kw, st, cx, node):
        if len(args) != 1:
            return None
        v = args[0]
        if isinstance(v, Unk):
            return [(st, Unk("type", v.taint))]
        t = self.pytype(v, st)
        if isinstance(t, (Ref, Ext)):
            return [(st, t)]
        if isinstance(t, str):
            return [(st, Ext(t))]
        return [(st, Unk("type"))]

    def f_isinstance(self, args, kw, st, cx, node):
        return self.isinstance_(args[0], args[1], st, cx, node)

    def f_issubclass(self, args, kw, st, cx, node):
        c, d = args
        ds = d.items if isinstance(d, Tup) else (d,)
        if isinstance(c, Unk):
            return self.fork_unknown(st, "issubclass", cx, node)
        if not (isinstance(c, Ext) or isinstance(c, Ref) and isinstance(st.get(c), Cls)):
            return self.throw(st, "TypeError", "issubclass() arg 1 must be a class", node, cx)
        r = [self.is_subclass(st, c, x) for x in ds]
        if True in r:
            return [(st, True)]
        if None in r:
            return self.fork_unknown(st, "issubclass", cx, node)
        return [(st, False)]

    def _try_getattr(self, o, name, st, cx, node):
        """(found [(state, value)], missing [state])"""
        self.sinks.append([])
        found = self.getattr(o, name, st, cx, node)
        missing = []
        for y, e, w in self.sinks.pop():
            if self.is_subclass(y, y.get(e).cls, Ext("AttributeError")):
                missing.append(y)
            else:
                self.sinks[-1].append((y, e, w))
        return found, missing

    def f_hasattr(self, args, kw, st, cx, node):
        if not isinstance(args[1], str):
            return None
        if isinstance(args[0], Ext):
            return self.fork_unknown(st, "hasattr of an external object", cx, node)
        f, m = self._try_getattr(args[0], args[1], st, cx, node)
        return [(y, True) for y, _ in f] + [(y, False) for y in m]

    def f_getattr(self, args, kw, st, cx, node):
        if not isinstance(args[1], str):
            return None
        if len(args) < 3:
            return self.getattr(args[0], args[1], st, cx, node)
        f, m = self._try_getattr(args[0], args[1], st, cx, node)
        return f + [(y, args[2]) for y in m]

    def f_setattr(self, args, kw, st, cx, node):
        if not isinstance(args[1], str):
            return None
        return [(y, None) for y in self.setattr(args[0], args[1], args[2], st, cx, node)]

    def f_callable(self, args, kw, st, cx, node):
        return self.isinstance_(args[0], Ext("typing.Callable"), st, cx, node)

    def f_globals(self, args, kw, st, cx, node):
        return self.getattr(cx.mod, "__dict__", st, cx, node)

    def f_vars(self, args, kw, st, cx, node):
        if not args:
            return None
        return self.getattr(args[0], "__dict__", st, cx, node)

    def f_slice(self, args, kw, st, cx, node):
        a = list(args)
        if len(a) == 1:
            a = [None] + a
        return [(st, XO("slice", *(a + [None] * (3 - len(a)))))]

    def f_super(self, args, kw, st, cx, node):
        if len(args) == 2:
            return [(st, XO("super", args[0], args[1]))]
        return None

    def f_object(self, args, kw, st, cx, node):
        return [(st, st.new(Inst(Ext("object"), {})))]

    def f_classmethod(self, args, kw, st, cx, node):
        return [(st, XO("classmethod", args[0]))]

    def f_staticmethod(self, args, kw, st, cx, node):
        return [(st, XO("staticmethod", args[0]))]

    def f_property(self, args, kw, st, cx, node):
        return [(st, XO("property", args[0] if args else kw.get("fget"),
                        args[1] if len(args) > 1 else kw.get("fset")))]

    def f_id(self, args, kw, st, cx, node):
        st.event("predictable", "id", self.where(node, cx))
        return [(st, self.weak_int("id", 48, st))]

    def f_hash(self, args, kw, st, cx, node):
        if isstr(args[0]) or isbytes(args[0]):
            # salted once in each process: some number
            st.event("predictable", "hash", self.where(node, cx))
            return [(st, isub(self.weak_int("hash", 64, st), 1 << 63))]
        return [(st, Unk("hash", taint(args[0])))]

    # ---- functools, dataclasses, itertools, operator ...
    def f_functools_wraps(self, args, kw, st, cx, node):
        return [(st, XO("identity"))]

    def f_functools_update_wrapper(self, args, kw, st, cx, node):
        return [(st, args[0])]

    def f_functools_lru_cache(self, args, kw, st, cx, node):
        if len(args) == 1 and isinstance(args[0], (Func, XO)):
            return [(st, XO("cached", args[0]))]
        return [(st, XO("cachedeco"))]

    f_functools_cache = f_functools_lru_cache

    def f_functools_cached_property(self, args, kw, st, cx, node):
        return [(st, XO("cachedprop", args[0]))]

    def f_functools_partial(self, args, kw, st, cx, node):
        return [(st, XO("partial", args[0], Tup(args[1:]), Tup(tuple(kw.items()))))]

    def f_dataclasses_dataclass(self, args, kw, st, cx, node):
        if args and isinstance(args[0], Ref):
            o = st.get(args[0])
            st.heap[args[0].id] = Cls(o.name, o.qual, o.bases, o.attrs, o.mro,
                                      o.flags + ("dataclass",) + (("frozen",) if kw.get("frozen") is True else ()))
            return [(st, args[0])]
        return [(st, XO("dcdeco", bool(kw.get("frozen", False))))]

    def f_dataclasses_field(self, args, kw, st, cx, node):
        return [(st, XO("dcfield", kw.get("default_factory"), kw.get("default")))]

    def f_dataclasses_asdict(self, args, kw, st, cx, node):
        o = st.get(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(o, Inst) and not any(isinstance(v, Ref) for v in o.attrs.values()):
            return [(st, st.new(DObj(tuple(o.attrs.items()))))]
        return None

    def f_dataclasses_astuple(self, args, kw, st, cx, node):
        o = st.get(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(o, Inst):
            return [(st, Tup(tuple(o.attrs.values())))]
        return None

    def f_dataclasses_replace(self, args, kw, st, cx, node):
        o = st.get(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(o, Inst):
            return [(st, st.new(Inst(o.cls, {**o.attrs, **kw})))]
        return None

    def f_collections_namedtuple(self, args, kw, st, cx, node):
        name, flds = args[0], args[1]
        if isinstance(flds, str):
            names = flds.replace(",", " ").split()
        else:
            r = self.iterate(flds, st, cx, node)
            if len(r) != 1 or r[0][1] is None:
                return None
            names = r[0][1]
        c = st.new(None)
        attrs = {"_fields": Tup(names)}
        d = kw.get("defaults")
        if d is not None:
            r = self.iterate(d, st, cx, node)
            dv = r[0][1]
            for k, v in zip(names[len(names) - len(dv):], dv):
                attrs[k] = v
        st.heap[c.id] = Cls(name, name, (), attrs, (c, Ext("tuple"), Ext("object")), ("namedtuple",))
        return [(st, c)]

    def f_collections_OrderedDict(self, args, kw, st, cx, node):
        return self.f_dict(args, kw, st, cx, node)

    def f_collections_defaultdict(self, args, kw, st, cx, node):
        out = self.f_dict(args[1:], kw, st, cx, node)
        for y, r in out:
            if isinstance(r, Ref):
                y.heap[r.id] = DObj(y.get(r).items, args[0] if args else None)
        return out

    def f_contextlib_suppress(self, args, kw, st, cx, node):
        return [(st, XO("suppress", *args))]

    def f_enum_auto(self, args, kw, st, cx, node):
        return [(st, XO("auto"))]

    def f_contextlib_contextmanager(self, args, kw, st, cx, node):
        f = args[0]
        if isinstance(f, Func) and f.isgen:
            return [(st, XO("ctxfactory", f))]
        return [(st, Unk("context manager"))]

    def f_contextlib_nullcontext(self, args, kw, st, cx, node):
        return [(st, XO("nullcontext", *args))]

    def f_copy_copy(self, args, kw, st, cx, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, (LObj, DObj, SetObj, BAObj, HashObj, Inst)):
                return [(st, st.new(o))]
        return [(st, v)]

    def f_copy_deepcopy(self, args, kw, st, cx, node):
        seen = {}

        def dc(v):
            if isinstance(v, Ref):
                if v.id in seen:
                    return seen[v.id]
                o = st.get(v)
                if isinstance(o, LObj):
                    r = seen[v.id] = st.new(o)
                    st.heap[r.id] = LObj(tuple(dc(x) for x in o.items))
                    return r
                if isinstance(o, DObj):
                    r = seen[v.id] = st.new(o)
                    st.heap[r.id] = DObj(tuple((k, dc(x)) for k, x in o.items), o.default)
                    return r
                if isinstance(o, Inst):
                    r = seen[v.id] = st.new(o)
                    st.heap[r.id] = Inst(o.cls, {k: dc(x) for k, x in o.attrs.items()})
                    return r
                if isinstance(o, (SetObj, BAObj, HashObj)):
                    r = seen[v.id] = st.new(o)
                    return r
                return v
            if isinstance(v, Tup):
                return Tup(tuple(dc(x) for x in v.items), v.cls)
            return v
        return [(st, dc(args[0]))]

    def f_itertools_chain(self, args, kw, st, cx, node):
        cur = [(st, [])]
        for a in args:
            nxt = []
            for y, acc in cur:
                for z, items in self.iterate(a, y, cx, node):
                    if items is None:
                        return None
                    nxt.append((z, acc + list(items)))
            cur = nxt
        return [(y, y.new(IterObj(a))) for y, a in cur]

    def f_itertools_chain_from_iterable(self, args, kw, st, cx, node):
        r = self.iterate(args[0], st, cx, node)
        if len(r) != 1 or r[0][1] is None:
            return None
        return self.f_itertools_chain(r[0][1], {}, r[0][0], cx, node)

    def f_itertools_takewhile(self, args, kw, st, cx, node):
        out = []
        for y, items in self.iterate(args[1], st, cx, node):
            if items is None:
                return None
            cur = [(y, [])]
            for it in items:
                nxt = []
                for z, acc in cur:
                    for w, v in self.call(args[0], [it], {}, z, cx, node):
                        for q, b in self.truth(v, w, cx, node):
                            if b:
                                nxt.append((q, acc + [it]))
                            else:
                                out.append((q, q.new(IterObj(acc))))
                cur = nxt
            out += [(z, z.new(IterObj(a))) for z, a in cur]
        return out

    def f_itertools_repeat(self, args, kw, st, cx, node):
        if len(args) == 2 and isinstance(args[1], int):
            return [(st, st.new(IterObj([args[0]] * args[1])))]
        if len(args) == 1:
            return [(st, st.new(EndlessObj("cycle", args)))]
        return None

    def f_itertools_islice(self, args, kw, st, cx, node):
        if isinstance(args[0], Ref) and isinstance(st.get(args[0]), EndlessObj):
            o = st.get(args[0])
            r = slice(*args[1:])
            if all(x is None or isinstance(x, int) for x in args[1:]) and r.stop is not None:
                st.put(args[0], EndlessObj(o.kind, o.items, o.pos + r.stop), self.where(node, cx))
                return [(st, st.new(IterObj([o.at(o.pos + i) for i in range(r.start or 0, r.stop, r.step or 1)])))]
            return None
        r = self.iterate(args[0], st, cx, node)
        if all(a is None or isinstance(a, int) for a in args[1:]) and all(i is not None for _, i in r):
            return [(y, y.new(IterObj(list(i)[slice(*args[1:])]))) for y, i in r]
        return None

    def f_itertools_product(self, args, kw, st, cx, node):
        import itertools
        cur = [(st, [])]
        for a in args:
            cur = [(z, acc + [i]) for y, acc in cur for z, i in self.iterate(a, y, cx, node)]
        if any(i is None for _, acc in cur for i in acc):
            return None
        return [(y, y.new(IterObj([Tup(t) for t in itertools.product(*acc)]))) for y, acc in cur]

    def _operator(op):
        def f(self, args, kw, st, cx, node):
            return self.binop(op, args[0], args[1], st, cx, node)
        return f

    for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("xor", "BitXor"), ("and_", "BitAnd"),
                   ("or_", "BitOr"), ("mod", "Mod"), ("floordiv", "FloorDiv"), ("lshift", "LShift"),
                   ("rshift", "RShift"), ("concat", "Add")):
        locals()["f_operator_" + _n] = _operator(_o)

    def _cmpop(op):
        def f(self, args, kw, st, cx, node):
            return self.compare(op, args[0], args[1], st, cx, node)
        return f

    for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"),
                   ("is_", "Is"), ("is_not", "IsNot")):
        locals()["f_operator_" + _n] = _cmpop(_o)

    def f_operator_itemgetter(self, args, kw, st, cx, node):
        return [(st, XO("itemgetter", *args))]

    def f_operator_attrgetter(self, args, kw, st, cx, node):
        return [(st, XO("attrgetter", *args))]

    def f_operator_getitem(self, args, kw, st, cx, node):
        return self.getitem(args[0], args[1], st, cx, node)

    def f_operator_contains(self, args, kw, st, cx, node):
        return self.contains(args[0], args[1], st, cx, node)

    def f_operator_not_(self, args, kw, st, cx, node):
        return [(y, not b) for y, b in self.truth(args[0], st, cx, node)]

    def f_operator_index(self, args, kw, st, cx, node):
        if isint(args[0]):
            return [(st, args[0])]
        return self.throw(st, "TypeError", "index", node, cx)

    def f_math_ceil(self, args, kw, st, cx, node):
        if isinstance(args[0], (int, float)):
            import math
            return [(st, math.ceil(args[0]))]
        if isinstance(args[0], SI):
            return [(st, args[0])]
        if isinstance(args[0], XO) and args[0].kind == "ratio":
            return [(y, ineg(q)) for y, q in self.binop("FloorDiv", ineg(args[0].args[0]), args[0].args[1], st, cx, node)]
        return None

    def f_math_trunc(self, args, kw, st, cx, node):
        return self.f_int(args, kw, st, cx, node)

    def math_const(self, name, args, st, cx, node):
        """a function of the math module on constants"""
        import math
        f = getattr(math, name, None)
        if not callable(f) or name.startswith("_") or not all(isinstance(a, (int, float)) for a in args):
            return None
        if name in ("factorial", "comb", "perm", "prod") and any(isinstance(a, int) and a > 1000 for a in args):
            return None
        try:
            return [(st, f(*args))]
        except (ValueError, OverflowError, TypeError, ZeroDivisionError) as e:
            return self.throw(st, type(e).__name__, "math." + name, node, cx)

    def f_math_floor(self, args, kw, st, cx, node):
        if isinstance(args[0], (int, float)):
            import math
            return [(st, math.floor(args[0]))]
        if isinstance(args[0], SI):
            return [(st, args[0])]
        if isinstance(args[0], XO) and args[0].kind == "ratio":
            return self.binop("FloorDiv", args[0].args[0], args[0].args[1], st, cx, node)
        return None

    # ---- conversions in libraries
    def f_int_from_bytes(self, args, kw, st, cx, node):
        a = list(args)
        d = a[0] if a else kw.get("bytes")
        order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
        return self.int_from_bytes(d, order, kw.get("signed", False), st, cx, node)

    def f_int_to_bytes(self, args, kw, st, cx, node):
        return self.call_bound(Bound(args[0], "to_bytes"), args[1:], kw, st, cx, node)

    def fromhex(self, v, st, cx, node, exc="ValueError", spaces=True):
        v = self.unwrap(v, st)
        if isinstance(v, str):
            try:
                return [(st, bytes.fromhex(v) if spaces else binascii.unhexlify(v))]
            except (ValueError, binascii.Error):
                return self.throw(st, exc, "non-hexadecimal number", node, cx)
        if isinstance(v, SS):
            out = []
            cur = [(st, b"")]
            for p in v.parts:
                nxt = []
                for y, acc in cur:
                    if isinstance(p, str):
                        if len(p) % 2 == 0 and set(p.lower()) <= set("0123456789abcdef"):
                            nxt.append((y, bcat(acc, bytes.fromhex(p))))
                            continue
                        if set(p.lower()) - set("0123456789abcdef \t\n\r\f\v"):
                            self.throw(y, exc, "non-hexadecimal number", node, cx)
                            continue
                        nxt.append((y, None))
                    elif p.kind == "hex":
                        nxt.append((y, bcat(acc, p.args[0] if not isinstance(p.args[0], Term)
                                            else VB((p.args[0],))) if acc is not None else None))
                    elif p.kind == "HEX":
                        nxt.append((y, bcat(acc, p.args[0]) if acc is not None else None))
                    elif p.kind == "b58":
                        nxt.append((y, None))
                    else:
                        for z, ok in y.branch(("flag", ("ishex", v))):
                            if ok:
                                nxt.append((z, bcat(acc, VB((T("unhex", p),))) if acc is not None and
                                            len(v.parts) == 1 else None))
                            else:
                                self.throw(z, exc, "non-hexadecimal number", node, cx)
                cur = nxt
            for y, acc in cur:
                if acc is None:
                    for z, ok in y.branch(("flag", ("ishex", v))):
                        if ok:
                            out.append((z, VB((T("unhex", v),))))
                        else:
                            self.throw(z, exc, "non-hexadecimal number", node, cx)
                else:
                    out.append((y, acc))
            return out
        if isinstance(v, Unk):
            y = st.fork()
            y.mark("fromhex of unknown")
            self.throw(y, exc, "non-hexadecimal number", node, cx)
            return [(st, Unk("bytes from hex", v.taint))]
        return self.throw(st, "TypeError", "fromhex() argument must be str", node, cx)

    def f_bytes_fromhex(self, args, kw, st, cx, node):
        return self.fromhex(args[0], st, cx, node) if not isbytes(self.unwrap(args[0], st)) else \
            self.throw(st, "TypeError", "fromhex() argument must be str, not bytes", node, cx)

    def f_bytearray_fromhex(self, args, kw, st, cx, node):
        return [(y, y.new(BAObj(b)) if isbytes(b) else b) for y, b in self.f_bytes_fromhex(args, kw, st, cx, node)]

    def f_binascii_unhexlify(self, args, kw, st, cx, node):
        v = self.unwrap(args[0], st)
        if isbytes(v):
            s = self.decode_bytes(v)
            if s is None:
                return None
            v = s
        return self.fromhex(v, st, cx, node, "binascii.Error", False)

    f_binascii_a2b_hex = f_binascii_unhexlify

    def f_binascii_hexlify(self, args, kw, st, cx, node):
        out = []
        for y, b in self.to_bytes_like(args[0], st, cx, node):
            out.append((y, encode_str(mkhex(b)) if isbytes(b) else b))
        return out

    f_binascii_b2a_hex = f_binascii_hexlify

    def f_codecs_encode(self, args, kw, st, cx, node):
        if len(args) > 1 and args[1] in ("hex", "hex_codec"):
            return self.f_binascii_hexlify(args[:1], {}, st, cx, node)
        if isstr(args[0]):
            return self.str_encode(args[0], args[1] if len(args) > 1 else "utf-8", st, cx, node)
        return None

    def f_codecs_decode(self, args, kw, st, cx, node):
        if len(args) > 1 and args[1] in ("hex", "hex_codec"):
            return self.f_binascii_unhexlify(args[:1], {}, st, cx, node)
        return self.bytes_decode(self.unwrap(args[0], st), args[1] if len(args) > 1 else "utf-8", st, cx, node)

    # ---- struct
    def _struct_fmt(self, fmt):
        import re
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        order = "little"
        if fmt[:1] in "<>!=@":
            order = {"<": "little", ">": "big", "!": "big"}.get(fmt[0], "little")
            native = fmt[0] == "@"
            fmt = fmt[1:]
        else:
            native = True
        out = []
        for cnt, c in re.findall(r"(\d*)([a-zA-Z?])", fmt):
            if c == "s":
                out.append(("s", int(cnt or 1)))
            elif c == "x":
                out.append(("x", int(cnt or 1)))
            else:
                n = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8}.get(c)
                if n is None or native and c in "Ll":
                    return None
                for _ in range(int(cnt or 1)):
                    out.append(("i" if c.islower() else "u", n))
        if native and _struct.calcsize(fmt) != sum(n for k, n in out):
            return None                      # alignment gaps
        return order, out

    def f_struct_calcsize(self, args, kw, st, cx, node):
        if isinstance(args[0], (str, bytes)):
            return [(st, _struct.calcsize(args[0]))]
        return None

    def f_struct_pack(self, args, kw, st, cx, node):
        p = self._struct_fmt(args[0]) if isinstance(args[0], (str, bytes)) else None
        if p is None:
            return None
        order, items = p
        vals = list(args[1:])
        if len(vals) != sum(1 for k, _ in items if k != "x"):
            return self.throw(st, "struct.error", "wrong number of arguments", node, cx)
        cur = [(st, [])]
        for k, n in items:
            if k == "x":
                cur = [(y, acc + [bytes(n)]) for y, acc in cur]
                continue
            v = vals.pop(0)
            nxt = []
            for y, acc in cur:
                if k == "s":
                    b = self.unwrap(v, y)
                    if not fixed(b):
                        return None
                    b = bslice(b, 0, min(n, len(b)))
                    nxt.append((y, acc + [bcat(b, bytes(n - len(b)))]))
                    continue
                if not isint(v) and not words.isw(v):
                    if isinstance(v, Unk):
                        return None
                    self.throw(y, "struct.error", "required argument is not an integer", node, cx)
                    continue
                self.sinks.append([])
                r = self.int_to_bytes(v, n, order, k == "i", y, cx, node)
                for s2, e, w in self.sinks.pop():
                    self.throw(s2, "struct.error", "argument out of range", node, cx)
                nxt += [(z, acc + [b]) for z, b in r]
            cur = nxt
        return [(y, bcat(*acc) if not any(isinstance(b, Unk) for b in acc) else Unk("packed")) for y, acc in cur]

    def f_struct_unpack(self, args, kw, st, cx, node):
        p = self._struct_fmt(args[0]) if isinstance(args[0], (str, bytes)) else None
        if p is None:
            return None
        order, items = p
        data = self.unwrap(args[1], st)
        if isinstance(data, XO) and data.kind == "memoryview":
            data = data.args[0]
        if not fixed(data):
            return None
        if len(data) != sum(n for _, n in items):
            return self.throw(st, "struct.error", "unpack requires a buffer of another size", node, cx)
        cur = [(st, [])]
        pos = 0
        for k, n in items:
            d = bslice(data, pos, pos + n)
            pos += n
            if k == "x":
                continue
            if k == "s":
                cur = [(y, acc + [d]) for y, acc in cur]
            else:
                cur = [(z, acc + [v]) for y, acc in cur
                       for z, v in self.int_from_bytes(d, order, k == "i", y, cx, node)]
        return [(y, Tup(acc)) for y, acc in cur]

    # ---- hashing
    def hash_new(self, algo, args, kw, st, cx, node):
        data = args[0] if args else kw.get("data", kw.get("string", b""))
        out = []
        if isstr(data):
            return self.throw(st, "TypeError", "Strings must be encoded before hashing", node, cx)
        for y, d in self.to_bytes_like(data, st, cx, node):
            out.append((y, y.new(HashObj(algo, d))))
        return out

    def f_hashlib_new(self, args, kw, st, cx, node):
        a = list(args)
        name = a.pop(0) if a else kw.get("name")
        if not isinstance(name, str):
            return None
        name = name.lower()
        if name not in DIGESTS:
            return self.throw(st, "ValueError", "unsupported hash type", node, cx)
        if name in ("ripemd160",):
            out = []
            for y, ok in st.branch(("flag", ("available", name))):
                if ok:
                    out += self.hash_new(name, a, kw, y, cx, node)
                else:
                    self.throw(y, "ValueError", "unsupported hash type ripemd160", node, cx)
            return out
        return self.hash_new(name, a, kw, st, cx, node)

    def digest(self, o):
        if isinstance(o.data, Unk):
            return Unk("digest", o.data.taint)
        if o.algo in ("sha256", "ripemd160"):
            return {"sha256": sha256, "ripemd160": ripemd160}[o.algo](o.data)
        return hashterm(o.algo, DIGESTS[o.algo], o.data)

    def f_hashlib_scrypt(self, args, kw, st, cx, node):
        pw = args[0] if args else kw.get("password")
        if isstr(pw):
            return self.throw(st, "TypeError", "a bytes-like object is required", node, cx)
        return self.do_scrypt(pw, kw.get("salt"), kw.get("n"), kw.get("r"), kw.get("p"), kw.get("dklen", 64),
                              st, cx, node)

    def f_scrypt_hash(self, args, kw, st, cx, node):
        names = ["password", "salt", "N", "r", "p", "buflen"]
        d = {"N": 1 << 14, "r": 8, "p": 1, "buflen": 64}
        d.update(zip(names, args))
        d.update(kw)
        if set(d) != set(names) or len(args) > 6:
            return self.throw(st, "TypeError", "scrypt.hash() arguments", node, cx)
        return self.do_scrypt(*[d[n] for n in names], st, cx, node)

    f_scrypt_scrypt_hash = f_scrypt_hash

    def do_scrypt(self, pw, salt, n, r, p, length, st, cx, node):
        vals = []
        for v in (pw, salt):
            v = self.unwrap(v, st)
            if isstr(v):
                v = encode_str(v)
            if isinstance(v, XO) and v.kind == "memoryview":
                v = v.args[0]
            vals.append(v)
        w = self.where(node, cx)
        st.event("scrypt", vals[0], vals[1], n, r, p, length, w)
        if any(isinstance(v, Unk) for v in vals):
            return [(st, Unk("scrypt of unknown", taint(Tup(vals))))]
        if not all(isbytes(v) for v in vals):
            return self.throw(st, "TypeError", "str or bytes expected", node, cx)
        if isinstance(length, int) and 0 < length <= 1 << 16 and all(isint(v) for v in (n, r, p)) and \
                not all(isinstance(v, int) for v in (n, r, p)):
            return [(st, scrypt(vals[0], vals[1], n, r, p, length))]
        if not all(isinstance(v, int) for v in (n, r, p, length)):
            return [(st, self.undecided(st, "scrypt with symbolic parameters", node, cx, Tup(vals)))]
        if n < 2 or n & (n - 1) or r < 1 or p < 1 or length < 1 or length > 1 << 16:
            return self.throw(st, "scrypt.error", "hash parameters are wrong", node, cx)
        return [(st, scrypt(vals[0], vals[1], n, r, p, length))]

    def f_hmac_compare_digest(self, args, kw, st, cx, node):
        return self.equal(args[0], args[1], st, cx, node)

    f_secrets_compare_digest = f_hmac_compare_digest

    def f_unicodedata_normalize(self, args, kw, st, cx, node):
        form, s = args
        if isinstance(s, str) and isinstance(form, str):
            return [(st, _ud.normalize(form, s))]
        if isstr(s) and isinstance(form, str):
            if form not in ("NFC", "NFD", "NFKC", "NFKD"):
                return self.throw(st, "ValueError", "invalid normalization form", node, cx)
            t = sterm(s)
            if t is not None and t.kind in ("hex", "b58"):
                return [(st, s)]
            return [(st, nfc(s, form))]
        if isinstance(s, Unk):
            return [(st, Unk("normalize", s.taint))]
        return self.throw(st, "TypeError", "normalize() argument 2 must be str", node, cx)

    def f_unicodedata_is_normalized(self, args, kw, st, cx, node):
        form, s = args
        t = sterm(s)
        if isinstance(s, str) and isinstance(form, str):
            return [(st, _ud.is_normalized(form, s))]
        if t is not None and t.kind == "normalize" and t.args[0] == form:
            return [(st, True)]
        if isstr(s) and form in ("NFC", "NFD", "NFKC", "NFKD"):
            return self.equal(nfc(s, form), s, st, cx, node)
        return None

    def pure_const(self, name, args, kw, st, cx, node):
        """a function of a pure library module, on constants"""
        head, _, meth = name.rpartition(".")
        if name in TEXTFUN and len(args) == 1 and isinstance(args[0], SS) and not kw:
            return [(st, SS((T("strfn", name, args[0]),)))]
        if not all(isconst(a) for a in args) or not all(isconst(a) for a in kw.values()):
            return None
        f = getattr(importlib.import_module(head), meth, None)
        if not callable(f) or isinstance(f, type):
            return None
        try:
            r = f(*args, **kw)
        except Exception as e:
            return self.throw(st, type(e).__name__, name, node, cx)
        return [(st, r)] if isconst(r) else None

    def ud_const(self, name, args, st, cx, node):
        f = getattr(_ud, name, None)
        if not callable(f) or not all(isconst(a) for a in args):
            return None
        try:
            return [(st, f(*args))]
        except (ValueError, KeyError, TypeError) as e:
            return self.throw(st, type(e).__name__, "unicodedata." + name, node, cx)

    # ---- regular expressions
    RE_SIMPLE = _re.compile(r"(?:\^|\\A)?(\[(?:\\.|[^\]\\])+\]|\\[dwsDWS]|\.)(\*|\+|\?|\{\d+(?:,\d*)?\})?(\$|\\Z)?")
    RE_CALLS = ("match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer", "compile", "escape")

    def re_call(self, name, args, kw, st, cx, node):
        args = [self.unwrap(a, st) for a in args]
        if name == "escape" and args and isinstance(args[0], (str, bytes)):
            return [(st, _re.escape(args[0]))]
        names = {"compile": ["pattern", "flags"], "sub": ["pattern", "repl", "string", "count", "flags"],
                 "subn": ["pattern", "repl", "string", "count", "flags"],
                 "split": ["pattern", "string", "maxsplit", "flags"]}.get(name, ["pattern", "string", "flags"])
        a = dict(zip(names, args))
        a.update(kw)
        pat, flags = a.get("pattern"), a.get("flags", 0)
        if isinstance(pat, XO) and pat.kind == "regex":
            pat, flags = pat.args
        if not isinstance(pat, (str, bytes)) or not isinstance(flags, int):
            return None
        try:
            rx = _re.compile(pat, flags)
        except _re.error:
            return self.throw(st, "re.error", "bad pattern", node, cx)
        if name == "compile":
            return [(st, XO("regex", pat, flags))]
        v = a.get("string")
        try:
            if name in ("sub", "subn"):
                repl, count = a.get("repl"), a.get("count", 0)
                if isinstance(v, (str, bytes)) and isinstance(repl, (str, bytes)) and isinstance(count, int):
                    r = getattr(rx, name)(repl, v, count)
                    return [(st, Tup(r) if name == "subn" else r)]
                if name == "sub" and isstr(v) and isinstance(repl, str) and isinstance(count, int):
                    if all(isinstance(p, Term) and p.kind in ("hex", "b58") or isinstance(p, str) for p in v.parts):
                        m = self.RE_SIMPLE.fullmatch(pat)
                        if m and m.group(2) in (None, "+") and not m.group(3) and pat[0] != "^" and \
                                pat[:2] != "\\A" and all(not rx.search(c) for p in v.parts for c in (
                                    p if isinstance(p, str) else "0123456789abcdef" if p.kind == "hex" else p.args[0])):
                            return [(st, v)]
                    return [(st, SS((T("resub", pat, flags, repl, count, v),)))]
                return None
            if name in ("split", "findall", "finditer"):
                if isinstance(v, (str, bytes)):
                    r = rx.split(v, a.get("maxsplit", 0)) if name == "split" else rx.findall(v) if name == "findall" else None
                    if r is not None and all(isinstance(x, (str, bytes)) for x in r):
                        return [(st, st.alloc_list(r))]
                return None
            if isinstance(v, (str, bytes)):
                m = getattr(rx, name)(v)
                return [(st, None if m is None else self.re_match(m))]
            if isinstance(v, SS):
                b = self.re_decided(name, pat, rx, v, st)
                if b is False:
                    return [(st, None)]
                if b:
                    return [(st, XO("match", (), (), 0, 0, v))]
        except TypeError:
            return self.throw(st, "TypeError", "re." + name, node, cx)
        return None

    def re_match(self, m):
        return XO("match", (m.group(0),) + m.groups(), tuple(m.groupdict().items()), m.start(), m.end(), m.string)

    def re_decided(self, name, pat, rx, v, st):
        """does a pattern of the form [characters]{m,n} match the text? None: not known"""
        m = self.RE_SIMPLE.fullmatch(pat) if isinstance(pat, str) else None
        if not m or name == "search" and not pat.startswith(("^", "\\A")):
            return None
        if name != "fullmatch" and not m.group(3):
            return None
        one = _re.compile(m.group(1), rx.flags & ~_re.UNICODE)
        rep = m.group(2)
        lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1), None: (1, 1)}.get(rep) or (
            lambda q: (int(q[0]), int(q[-1]) if q[-1] else None))(rep[1:-1].split(","))
        for p in v.parts:
            if isinstance(p, str):
                if not all(one.fullmatch(c) for c in p):
                    return False
            elif p.kind not in ("hex", "HEX", "b58") or not all(one.fullmatch(c) for c in (
                    p.args[0] if p.kind == "b58" else "0123456789abcdef" if p.kind == "hex" else "0123456789ABCDEF")):
                return None
        n = self.length(v, st)
        a, b = (n, n) if isinstance(n, int) else st.store.rng(n) if n is not None else (0, None)
        if (a or 0) >= lo and (hi is None or b is not None and b <= hi):
            return True
        if b is not None and b < lo or hi is not None and (a or 0) > hi:
            return False
        return None

    # ---- randomness
    def draw(self, n, st, cx, node, src, size=None):
        if isinstance(n, SI):
            lo, hi = st.store.rng(n)
            if lo == hi:
                n = lo
        if not isinstance(n, int):
            return None
        if n == 0:
            return [(st, b"")]
        # (the entropy drawn, in bytes: less than the length when not every value can occur)
        st.event("draw", src, n if size is None or size == n else size, st.draws, self.where(node, cx))
        t = T("urandom", st.draws, n, size=n)
        st.draws += 1
        return [(st, tbytes(t))]

    def f_os_urandom(self, args, kw, st, cx, node):
        return self.draw(args[0] if args else None, st, cx, node, "os.urandom")

    def f_secrets_token_bytes(self, args, kw, st, cx, node):
        n = args[0] if args else kw.get("nbytes")
        return self.draw(32 if n is None else n, st, cx, node, "secrets.token_bytes")

    def f_secrets_token_hex(self, args, kw, st, cx, node):
        n = args[0] if args else kw.get("nbytes")
        r = self.draw(32 if n is None else n, st, cx, node, "secrets.token_hex")
        return r and [(y, mkhex(b)) for y, b in r]

    def f_os_getrandom(self, args, kw, st, cx, node):
        return self.draw(args[0], st, cx, node, "os.getrandom")

    def f_secrets_randbits(self, args, kw, st, cx, node):
        if isinstance(args[0], int) and args[0] > 0:
            return self.draw_bits(args[0], st, cx, node, "secrets.randbits")
        return None

    def draw_bits(self, n, st, cx, node, src):
        r = self.draw((n + 7) // 8, st, cx, node, src, n / 8)
        return r and [(y, int_bits(vbits(b)[-n:])) for y, b in r]

    def draw_range(self, meth, args, st, cx, node, src):
        r = self.weak_range(src, meth, args, st)
        if r is None:
            return None
        lo, hi = r
        n = (hi - lo).bit_length()
        size = n / 8 if hi - lo + 1 == 1 << n else (hi - lo).bit_length() / 8 - .01
        q = self.draw((n + 7) // 8, st, cx, node, src, size)
        return q and [(y, iadd(int_bits(vbits(b)[-n:]), lo)) for y, b in q]

    def f_secrets_randbelow(self, args, kw, st, cx, node):
        return self.draw_range("randbelow", args, st, cx, node, "secrets.randbelow")

    # ---- AES
    def f_pyaes_AESModeOfOperationECB(self, args, kw, st, cx, node):
        key = self.unwrap(args[0] if args else kw.get("key"), st)
        if isinstance(key, Unk):
            return [(st, Unk("cipher", key.taint))]
        if not isbytes(key):
            return None
        n = self.length(key, st)
        if not isinstance(n, int):
            return None
        if n not in (16, 24, 32):
            return self.throw(st, "ValueError", "Invalid key size", node, cx)
        return [(st, XO("aes", key))]

    def f_pyaes_AES(self, args, kw, st, cx, node):
        r = self.f_pyaes_AESModeOfOperationECB(args, kw, st, cx, node)
        return r and [(y, XO("aesraw", *v.args) if isinstance(v, XO) else v) for y, v in r]

    # ---- secp256k1
    def f_ecdsa_keys_SigningKey_from_string(self, args, kw, st, cx, node):
        names = ["string", "curve", "hashfunc"]
        d = dict(zip(names, args))
        d.update(kw)
        s = self.unwrap(d.get("string"), st)
        c = d.get("curve")
        if not (isinstance(c, Ext) and c.name == "ecdsa.curves.SECP256k1"):
            return None
        if isinstance(s, Unk):
            y = st.fork()
            y.mark("key of unknown bytes")
            self.throw(y, MALFORMED, "", node, cx)
            return [(st, Unk("signing key", s.taint))]
        if not isbytes(s):
            return self.throw(st, "TypeError", "bytes-like object required", node, cx)
        n = self.length(s, st)
        if not isinstance(n, int):
            out = []
            for y, ok in self.equal(n, 32, st, cx, node):
                if ok:
                    out.append((y, self.undecided(y, "key of bytes of unknown structure", node, cx, s)))
                else:
                    self.throw(y, MALFORMED, "Invalid length of private key", node, cx)
            return out
        if n != 32:
            return self.throw(st, MALFORMED, "Invalid length of private key", node, cx)
        return self.f_ecdsa_keys_SigningKey_from_secret_exponent([int_bits(vbits(s)), c], {}, st, cx, node)

    def f_ecdsa_keys_SigningKey_from_secret_exponent(self, args, kw, st, cx, node):
        v = args[0] if args else kw.get("secexp")
        c = args[1] if len(args) > 1 else kw.get("curve")
        if not (isinstance(c, Ext) and c.name == "ecdsa.curves.SECP256k1") or not isint(v):
            return None
        out = []
        for y, ok in self.rng_lit(st, v, ((1, N - 1),)):
            if ok:
                out.append((y, XO("sk", v)))
            else:
                self.throw(y, MALFORMED, "Invalid value for secexp", node, cx)
        return out

    def _point_bytes(self, data, st, cx, node, strict):
        """parse an encoded point: [(state, XO jac | rawpt)]; failures raise.
        strict: coordinates are checked against the curve"""
        data = self.unwrap(data, st)
        if isinstance(data, Unk):
            y = st.fork()
            y.mark("point of unknown bytes")
            self.throw(y, MALFORMED, "", node, cx)
            return [(st, Unk("point", data.taint))]
        if not isbytes(data):
            return self.throw(st, "TypeError", "bytes-like object required", node, cx)
        n = self.length(data, st)
        if not isinstance(n, int) or not fixed(data):
            st.mark(f"point of bytes of unknown length at {self.where(node, cx)}")
            y = st.fork()
            self.throw(y, MALFORMED, "", node, cx)
            return [(st, Unk("point", taint(data)))]
        bits = vbits(data)
        out = []
        if n == 64:
            return self._xy(bits[:256], bits[256:], st, cx, node, strict)
        if n == 65:
            cur = [st]
            for pre in (4, 6, 7):
                nxt = []
                for s in cur:
                    for y, b in self.eqbits(bits[:8], cbits(bytes([pre])), s):
                        if not b:
                            nxt.append(y)
                            continue
                        if pre == 4:
                            out += self._xy(bits[8:264], bits[264:], y, cx, node, strict)
                        else:
                            for z, odd in self.eqbits((bits[519],), (pre & 1,), y):
                                if odd:
                                    out += self._xy(bits[8:264], bits[264:], z, cx, node, strict)
                                else:
                                    self.throw(z, MALFORMED, "Inconsistent hybrid point encoding", node, cx)
                cur = nxt
            for s in cur:
                self.throw(s, MALFORMED, "Invalid X9.62 encoding of the public point", node, cx)
            return out
        if n == 33:
            for y, b in self.eqbits(bits[:7], (0, 0, 0, 0, 0, 0, 1), st):
                if not b:
                    self.throw(y, MALFORMED, "Malformed compressed point encoding", node, cx)
                    continue
                xb, par = y.store.nbits(bits[8:]), y.store.nbit(bits[7])
                pt = find_pt_compressed(tuple(xb), par)
                if pt is None:
                    pt = find_pt_compressed(bits[8:], bits[7])
                if pt is not None:
                    out.append((y, XO("jac", pt)))
                    continue
                if all(q <= 1 for q in xb) and par <= 1:
                    r = self._const_comp(xb, par)
                    if r is None:
                        self.throw(y, MALFORMED, "Encoding does not correspond to a point on curve", node, cx)
                    else:
                        out.append((y, XO("jac", r)))
                    continue
                bx = BV(tuple(bits[8:])) if not all(q <= 1 for q in bits[8:]) else mkbytes(bits[8:])
                xv = int_bits(bits[8:])
                for z, inr in self.rng_lit(y, xv, ((0, CURVE_P - 1),)):
                    if not inr:
                        # x is reduced before the square root, and used unreduced afterwards
                        if strict:
                            self.throw(z, MALFORMED, "Point does not lay on the curve", node, cx)
                            continue
                        for w, ok in z.branch(("flag", ("hasroot", bx))):
                            if ok:
                                out.append((w, XO("rawpt", xv, iatom(T("rooty", bx, BitE(bits[7]))))))
                            else:
                                self.throw(w, MALFORMED, "not on the curve", node, cx)
                        continue
                    for w, ok in z.branch(("flag", ("hasroot", bx))):
                        if ok:
                            out.append((w, XO("jac", opaque_pt("comp", bx, BitE(bits[7])))))
                        else:
                            self.throw(w, MALFORMED, "Encoding does not correspond to a point on curve", node, cx)
            return out
        return self.throw(st, MALFORMED, "Length of string does not match lengths of any of the supported encodings",
                          node, cx)

    @staticmethod
    def _const_comp(xb, par):
        x = 0
        for b in xb:
            x = x << 1 | b
        if x >= CURVE_P:
            return None
        y2 = (pow(x, 3, CURVE_P) + 7) % CURVE_P
        y = pow(y2, (CURVE_P + 1) // 4, CURVE_P)
        if y * y % CURVE_P != y2:
            return None
        return opaque_pt("comp", mkbytes(xb), BitE(par))

    def _xy(self, xb, yb, st, cx, node, strict):
        """point with these coordinate bits"""
        pt = find_pt(tuple(xb), tuple(yb)) or find_pt(tuple(st.store.nbits(xb)), tuple(st.store.nbits(yb)))
        if pt is not None:
            return [(st, XO("jac", pt))]
        x, y = int_bits(xb), int_bits(yb)
        if not strict:
            return [(st, XO("rawpt", x, y))]
        out = []
        for z, ok in self.on_curve(x, y, st, cx, node, checkrange=True):
            if ok:
                out.append((z, self.point_of(x, y, z)))
            else:
                self.throw(z, MALFORMED, "Point does not lay on the curve", node, cx)
        return out

    def coords(self, x, y, st):
        """(xbits, ybits) as 256-bit vectors or None"""
        xb, yb = self.bits_of(x, st), self.bits_of(y, st)
        if xb is None or yb is None or len(xb) > 256 or len(yb) > 256:
            return None
        return (0,) * (256 - len(xb)) + tuple(xb), (0,) * (256 - len(yb)) + tuple(yb)

    def point_of(self, x, y, st):
        c = self.coords(x, y, st)
        if c is None:
            return Unk("point", taint(x) | taint(y))
        pt = find_pt(*c)
        if pt is None:
            pt = opaque_pt("xy", mkbytes(c[0]) if all(b <= 1 for b in c[0]) else BV(c[0]),
                           mkbytes(c[1]) if all(b <= 1 for b in c[1]) else BV(c[1]))
        return XO("jac", pt)

    def on_curve(self, x, y, st, cx, node, checkrange=False):
        """[(state, bool)]: is (x, y) a curve point (modulo p)"""
        if isconst(x) and isconst(y):
            ok = (y * y - x * x * x - 7) % CURVE_P == 0
            if checkrange:
                ok = ok and 0 <= x < CURVE_P and 0 <= y < CURVE_P
            return [(st, ok)]
        out = []
        cur = [st]
        if checkrange:
            for v in (x, y):
                nxt = []
                for s in cur:
                    for z, ok in self.rng_lit(s, v, ((0, CURVE_P - 1),)):
                        if ok:
                            nxt.append(z)
                        else:
                            out.append((z, False))
                cur = nxt
        for s in cur:
            c = self.coords(x, y, s)
            if c is not None and find_pt(*c) is not None:
                out.append((s, True))
                continue
            if isinstance(x, Unk) or isinstance(y, Unk):
                out += self.fork_unknown(s, "curve membership of unknown coordinates", cx, node)
                continue
            out += s.branch(("flag", ("oncurve", x, y)))
        return out

    def f_ecdsa_keys_VerifyingKey_from_string(self, args, kw, st, cx, node):
        names = ["string", "curve", "hashfunc", "validate_point", "valid_encodings"]
        d = dict(zip(names, args))
        d.update(kw)
        c = d.get("curve")
        if not (isinstance(c, Ext) and c.name == "ecdsa.curves.SECP256k1"):
            return None
        if d.get("valid_encodings") is not None:
            return None
        strict = d.get("validate_point", True) is not False
        return [(y, self._vk(p)) for y, p in self._point_bytes(d.get("string"), st, cx, node, strict)]

    @staticmethod
    def _vk(p):
        if isinstance(p, XO) and p.kind == "jac":
            return XO("vk", p.args[0])
        if isinstance(p, XO) and p.kind == "rawpt":
            return XO("vkraw", *p.args)
        return p

    def f_ecdsa_keys_VerifyingKey_from_public_point(self, args, kw, st, cx, node):
        d = dict(zip(["point", "curve", "hashfunc", "validate_point"], args))
        d.update(kw)
        c = d.get("curve")
        if not (isinstance(c, Ext) and c.name == "ecdsa.curves.SECP256k1"):
            return None
        p = d.get("point")
        if isinstance(p, Unk):
            return [(st, Unk("verifying key", p.taint))]
        if isinstance(p, XO) and p.kind in ("jac", "aff"):
            return [(st, XO("vk", p.args[0]))]
        if isinstance(p, XO) and p.kind == "rawpt":
            out = []
            for y, ok in self.on_curve(p.args[0], p.args[1], st, cx, node, checkrange=True):
                if ok:
                    r = self.point_of(p.args[0], p.args[1], y)
                    out.append((y, self._vk(r)))
                else:
                    self.throw(y, MALFORMED, "Point does not lay on the curve", node, cx)
            return out
        if isinstance(p, XO) and p.kind == "inf":
            return self.throw(st, MALFORMED, "Generator point order is bad", node, cx)
        return None

    def f_ecdsa_ellipticcurve_PointJacobi_from_bytes(self, args, kw, st, cx, node):
        if st.legacy:
            return self.throw(st, "AttributeError", "type object 'PointJacobi' has no attribute 'from_bytes'", node, cx)
        d = dict(zip(["curve", "data", "validate_encoding", "valid_encodings"], args))
        d.update(kw)
        if d.get("valid_encodings") is not None:
            return None
        return self._point_bytes(d.get("data"), st, cx, node, False)

    f_ecdsa_ellipticcurve_Point_from_bytes = f_ecdsa_ellipticcurve_PointJacobi_from_bytes

    def f_ecdsa_ellipticcurve_PointJacobi_from_affine(self, args, kw, st, cx, node):
        p = args[0] if args else kw.get("point")
        if isinstance(p, XO) and p.kind in ("jac", "aff"):
            return [(st, XO("jac", p.args[0]))]
        if isinstance(p, XO) and p.kind in ("inf", "rawpt"):
            return [(st, p)]
        if isinstance(p, Unk):
            return [(st, p)]
        return None

    def f_ecdsa_ellipticcurve_Point(self, args, kw, st, cx, node):
        d = dict(zip(["curve", "x", "y", "order"], args))
        d.update(kw)
        x, y = d.get("x"), d.get("y")
        if x is None and y is None:
            return [(st, XO("inf"))]
        if not isint(x) or not isint(y):
            if isinstance(x, Unk) or isinstance(y, Unk):
                return [(st, Unk("point", taint(x) | taint(y)))]
            return self.throw(st, "TypeError", "coordinates", node, cx)
        out = []
        for z, ok in self.on_curve(x, y, st, cx, node):
            if not ok:
                self.throw(z, "AssertionError", "", node, cx)
                continue
            c = self.coords(x, y, z)
            inr = None
            if c is not None:
                lx, hx = z.store.rng(x)
                ly, hy = z.store.rng(y)
                if find_pt(*c) is not None or (hx is not None and hx < CURVE_P and hy is not None and hy < CURVE_P
                                               and lx >= 0 and ly >= 0):
                    inr = True
            if inr:
                p = self.point_of(x, y, z)
                out.append((z, XO("aff", *p.args) if isinstance(p, XO) else p))
            else:
                out.append((z, XO("rawpt", x, y)))
        return out

    def f_ecdsa_ellipticcurve_PointJacobi(self, args, kw, st, cx, node):
        d = dict(zip(["curve", "x", "y", "z", "order", "generator"], args))
        d.update(kw)
        if d.get("z") == 1 and isint(d.get("x")) and isint(d.get("y")):
            c = self.coords(d["x"], d["y"], st)
            if c is not None and find_pt(*c) is not None:
                return [(st, XO("jac", find_pt(*c)))]
            return [(st, XO("rawpt", d["x"], d["y"]))]
        return None

    def f_ecdsa_ecdsa_curve_secp256k1_p(self, args, kw, st, cx, node):
        return [(st, CURVE_P)]

    def f_ecdsa_ecdsa_curve_secp256k1_a(self, args, kw, st, cx, node):
        return [(st, 0)]

    def f_ecdsa_ecdsa_curve_secp256k1_b(self, args, kw, st, cx, node):
        return [(st, 7)]

    def f_ecdsa_ecdsa_curve_secp256k1_cofactor(self, args, kw, st, cx, node):
        return [(st, 1)]

    def f_ecdsa_ecdsa_curve_secp256k1_contains_point(self, args, kw, st, cx, node):
        return self.on_curve(args[0], args[1], st, cx, node)

    def nonzero_scalar(self, k, st, cx, node):
        """[(state, k is not a multiple of n)]"""
        if isconst(k):
            return [(st, k % N != 0)]
        lo, hi = st.store.rng(k)
        if lo is not None and hi is not None and lo >= 1 and hi < N:
            return [(st, True)]
        out = []
        for y, z in self.equal(k, 0, st, cx, node):
            if z:
                out.append((y, False))
                continue
            if hi is None or hi >= N:
                for w, e in self.equal(k, N, y, cx, node):
                    out.append((w, not e))
            else:
                out.append((y, True))
        return out

    def ext_binop(self, op, a, b, st, cx, node):
        P_ = ("jac", "aff", "rawpt", "inf")
        if op == "Mult":
            for p, k in ((a, b), (b, a)):
                if isinstance(p, XO) and p.kind in P_ and (isint(k) or isinstance(k, Unk)):
                    if isinstance(k, Unk) or p.kind == "rawpt":
                        return [(st, self.undecided(st, "multiple of an unchecked point", node, cx, Tup((p, k))))]
                    if p.kind == "inf":
                        return [(st, p)]
                    out = []
                    for y, nz in self.nonzero_scalar(k, st, cx, node):
                        out.append((y, XO("jac", ecmul(p.args[0], k)) if nz else XO("inf")))
                    return out
        if op in ("Add", "Sub") and isinstance(a, XO) and isinstance(b, XO) and a.kind in P_ and b.kind in P_:
            if a.kind == "inf":
                return [(st, b)] if op == "Add" else None
            if b.kind == "inf":
                return [(st, a)]
            if "rawpt" in (a.kind, b.kind):
                return [(st, self.undecided(st, "sum of unchecked points", node, cx, Tup((a, b))))]
            q = b.args[0] if op == "Add" else ecmul(b.args[0], -1)
            r = ecadd(a.args[0], q)
            if not r.args[1]:
                return [(st, XO("inf"))]
            return [(st, XO("jac", r))]
        return None

    # ------------------------------------------------------------ object attributes
    def xo_attr(self, o, name, st, cx, node):
        k = o.kind
        if k == "sk":
            if name == "verifying_key":
                return [(st, XO("vk", ecmul(G, o.args[0])))]
            if name == "privkey":
                return [(st, XO("privkey", o.args[0]))]
            if name == "curve":
                return [(st, Ext("ecdsa.curves.SECP256k1"))]
            if name == "baselen":
                return [(st, 32)]
        if k == "uuid":
            if name == "bytes":
                return [(st, o.args[0])]
            if name == "int":
                return [(st, int_bits(vbits(o.args[0])))]
            if name == "hex":
                return [(st, mkhex(o.args[0]))]
        if k == "privkey" and name == "secret_multiplier":
            return [(st, o.args[0])]
        if k in ("vk", "vkraw"):
            if name == "pubkey":
                return [(st, XO("pubkey" if k == "vk" else "pubkeyraw", *o.args))]
            if name == "curve":
                return [(st, Ext("ecdsa.curves.SECP256k1"))]
        if k == "pubkey" and name == "point":
            return [(st, XO("jac", o.args[0]))]
        if k == "pubkeyraw" and name == "point":
            return [(st, XO("rawpt", *o.args))]
        if k in ("jac", "rawpt", "aff", "inf"):
            if st.legacy and name in ("to_bytes", "from_bytes"):
                return self.throw(st, "AttributeError", f"'PointJacobi' object has no attribute '{name}'", node, cx)
            if name in ("x", "y", "to_bytes", "curve", "order", "double", "to_affine", "scale", "mul_add",
                        "__add__", "__mul__", "__rmul__", "__eq__", "__neg__"):
                return [(st, Bound(o, name))]
            return self.throw(st, "AttributeError", name, node, cx)
        if k == "slice" and name in ("start", "stop", "step"):
            return [(st, o.args[("start", "stop", "step").index(name)])]
        if k == "range" and name in ("start", "stop", "step"):
            return [(st, o.args[("start", "stop", "step").index(name)])]
        return [(st, Bound(o, name))]

    def call_xo(self, f, args, kw, st, cx, node):
        k = f.kind
        if k == "identity":
            return [(st, args[0])]
        if k == "cachedeco":
            return [(st, XO("cached", args[0]))]
        if k == "dcdeco":
            return self.f_dataclasses_dataclass(args, {"frozen": f.args[0]}, st, cx, node)
        if k == "itemgetter":
            if len(f.args) == 1:
                return self.getitem(args[0], f.args[0], st, cx, node)
            cur = [(st, [])]
            for i in f.args:
                cur = [(z, acc + [v]) for y, acc in cur for z, v in self.getitem(args[0], i, y, cx, node)]
            return [(y, Tup(a)) for y, a in cur]
        if k == "attrgetter" and len(f.args) == 1 and isinstance(f.args[0], str):
            cur = [(st, args[0])]
            for part in f.args[0].split("."):
                cur = [(z, v) for y, o in cur for z, v in self.getattr(o, part, y, cx, node)]
            return cur
        if k == "classmethod":
            return self.call(f.args[0], args, kw, st, cx, node)
        st.mark(f"call of {k}")
        return [(st, Unk(f"call of {k}", taint(Tup(args))))]

    def pt_bytes(self, o, enc, st, cx, node):
        """encoding of a point object"""
        if isinstance(o, XO) and o.kind in ("rawpt", "vkraw"):
            x, y = o.args[-2:]
            out = []
            cur = [(st, [])]
            for v in (x, y):
                nxt = []
                for s, acc in cur:
                    for z, b in self.int_to_bytes(v, 32, "big", False, s, cx, node):
                        nxt.append((z, acc + [b]))
                cur = nxt
            for s, (xb, yb) in cur:
                if isinstance(xb, Unk) or isinstance(yb, Unk):
                    out.append((s, Unk("point bytes")))
                    continue
                b = vbits(yb)
                if enc == "compressed":
                    out.append((s, mkbytes((0, 0, 0, 0, 0, 0, 1, b[255]) + tuple(vbits(xb)))))
                elif enc == "uncompressed":
                    out.append((s, bcat(b"\x04", xb, yb)))
                elif enc == "raw":
                    out.append((s, bcat(xb, yb)))
                else:
                    out.append((s, mkbytes((0, 0, 0, 0, 0, 1, 1, b[255]) + tuple(vbits(xb)) + tuple(b))))
            return out
        pt = o.args[0]
        if enc == "compressed":
            return [(st, ec_compressed(pt))]
        if enc == "uncompressed":
            return [(st, ec_uncompressed(pt))]
        if enc == "raw":
            return [(st, ec_raw(pt))]
        if enc == "hybrid":
            r = ec_uncompressed(pt)
            return [(st, mkbytes((0, 0, 0, 0, 0, 1, 1, ecy_bits(pt)[255]) + vbits(r)[8:]))]
        return None

    def xo_method(self, o, name, args, kw, st, cx, node):
        k = o.kind
        if k == "weakrng":
            if name == "seed":
                return [(st, None)]
            st.event("predictable", o.args[0], self.where(node, cx))
            r = self.weak_bytes(o.args[0], name, args or list(kw.values()), st)
            return [(st, r if r is not None else Unk(f"{o.args[0]}.{name}", frozenset(["predictable:" + o.args[0]])))]
        if k == "regex" and name in self.RE_CALLS:
            r = self.re_call(name, [o] + list(args), kw, st, cx, node)
            return r if r is not None else [(st, self.undecided(st, f"re.{name} of this text", node, cx, Tup(tuple(args))))]
        if k == "match":
            if name in ("group", "__getitem__") and all(isinstance(a, (int, str)) for a in args):
                g = o.args[0]
                if not g and (not args or args == [0]):
                    return [(st, o.args[4])]         # the pattern matched the whole text
                try:
                    r = [dict(o.args[1])[a] if isinstance(a, str) else g[a] for a in args or [0]]
                except (KeyError, IndexError):
                    return self.throw(st, "IndexError", "no such group", node, cx)
                return [(st, r[0] if len(r) == 1 else Tup(r))]
            if o.args[0] and name == "groups" and not args:
                return [(st, Tup(o.args[0][1:]))]
            if o.args[0] and name in ("start", "end", "span") and not args:
                return [(st, {"start": o.args[2], "end": o.args[3], "span": Tup(o.args[2:4])}[name])]
            return None
        if k == "sysrng":
            n = args[0] if args else list(kw.values())[0] if kw else None
            if name == "seed":
                return [(st, None)]
            if name == "randbytes":
                return self.draw(n, st, cx, node, "SystemRandom.randbytes")
            if name == "getrandbits" and isinstance(n, int) and n > 0:
                return self.draw_bits(n, st, cx, node, "SystemRandom.getrandbits")
            return self.draw_range(name, args, st, cx, node, "SystemRandom." + name)
        if k in ("aes", "aesraw"):
            if name in ("encrypt", "decrypt"):
                key = o.args[0]
                out = []
                for y, x in self.to_bytes_like(args[0] if args else list(kw.values())[0], st, cx, node):
                    if isinstance(x, Unk):
                        out.append((y, Unk("cipher text", x.taint)))
                        continue
                    n = self.length(x, y)
                    if n != 16:
                        if isinstance(n, int):
                            self.throw(y, "ValueError", "plaintext block must be 16 bytes", node, cx)
                        else:
                            out.append((y, self.undecided(y, "cipher on bytes of unknown length", node, cx)))
                        continue
                    # identical inputs up to the facts of this path are identical
                    r = self.cipher(name, key, x, y)
                    if k == "aesraw":
                        r = y.new(LObj(self.byte_items(r)))
                    out.append((y, r))
                return out
        if k == "sk":
            v = o.args[0]
            if name == "to_string":
                return self.int_to_bytes(v, 32, "big", False, st, cx, node)
            if name in ("get_verifying_key",):
                return [(st, XO("vk", ecmul(G, v)))]
        if k in ("vk", "vkraw"):
            if name == "to_string":
                enc = args[0] if args else kw.get("encoding", "raw")
                if enc is None:
                    enc = "raw"
                return self.pt_bytes(o, enc, st, cx, node) if isinstance(enc, str) and \
                    enc in ("raw", "compressed", "uncompressed", "hybrid") else None
        if k in ("jac", "aff", "rawpt"):
            if name in ("x", "y"):
                if k == "rawpt":
                    return [(st, o.args[0 if name == "x" else 1])]
                return [(st, int_bits((ecx_bits if name == "x" else ecy_bits)(o.args[0])))]
            if name == "to_bytes":
                enc = args[0] if args else kw.get("encoding", "raw")
                return self.pt_bytes(o, enc, st, cx, node)
            if name == "curve":
                return [(st, Ext("ecdsa.ecdsa.curve_secp256k1"))]
            if name == "order":
                return [(st, N if k != "rawpt" and o.args[0] is G else None)]
            if name == "double" and k != "rawpt":
                return [(st, XO("jac", ecmul(o.args[0], 2)))]
            if name == "to_affine" and k != "rawpt":
                return [(st, XO("aff", o.args[0]))]
            if name == "scale":
                return [(st, o)]
            if name in ("__mul__", "__rmul__"):
                return self.ext_binop("Mult", o, args[0], st, cx, node)
            if name == "__add__":
                return self.ext_binop("Add", o, args[0], st, cx, node)
            if name == "__neg__" and k != "rawpt":
                return [(st, XO("jac", ecmul(o.args[0], -1)))]
        if k == "inf":
            if name in ("x", "y"):
                return [(st, None)]
            if name == "to_affine":
                return [(st, o)]
        if k == "property":
            if name == "setter":
                return [(st, XO("property", o.args[0], args[0]))]
            if name in ("getter", "deleter"):
                return [(st, o)]
        if k == "memoryview":
            if name in ("tobytes",):
                return [(st, o.args[0])]
            if name == "hex":
                return [(st, mkhex(o.args[0]))]
        if k == "cached":
            if name == "cache_clear":
                return [(st, None)]
        if k == "range" and name in ("index", "count"):
            return None
        st.mark(f"method {name} of {k}")
        return [(st, Unk(f"{k}.{name}", taint(o) | taint(Tup(args))))]

    def cipher(self, name, key, x, st):
        f = aesenc if name == "encrypt" else aesdec
        nk = mkbytes(st.store.nbits(vbits(key))) if fixed(key) else key
        r = f(key, x)
        return r

    # ------------------------------------------------------------ bound methods
    def call_bound(self, f, args, kw, st, cx, node):
        o, name = f.obj, f.name
        if isinstance(o, Unk):
            return self.call_unknown(f"{o.why}.{name}", args, kw, st, cx, node, o.taint)
        if isinstance(o, XO):
            r = self.xo_method(o, name, args, kw, st, cx, node)
        elif isinstance(o, Ref):
            ob = st.get(o)
            if isinstance(ob, LObj):
                r = self.m_list(o, ob, name, args, kw, st, cx, node)
            elif isinstance(ob, DObj):
                r = self.m_dict(o, ob, name, args, kw, st, cx, node)
            elif isinstance(ob, SetObj):
                r = self.m_set(o, ob, name, args, kw, st, cx, node)
            elif isinstance(ob, BAObj):
                r = self.m_bytearray(o, ob, name, args, kw, st, cx, node)
            elif isinstance(ob, HashObj):
                r = self.m_hash(o, ob, name, args, kw, st, cx, node)
            elif isinstance(ob, Inst):
                r = self.m_inst(o, ob, name, args, kw, st, cx, node)
            elif isinstance(ob, Cls) and name == "__subclasses__":
                r = [(st, st.alloc_list([Ref(i) for i, c in list(st.base.items()) + list(st.heap.items())
                                         if isinstance(c, Cls) and o in c.bases]))]
            else:
                r = None
        elif isstr(o):
            r = self.m_str(o, name, args, kw, st, cx, node)
        elif isbytes(o):
            r = self.m_bytes(o, name, args, kw, st, cx, node)
        elif isint(o):
            r = self.m_int(o, name, args, kw, st, cx, node)
        elif isinstance(o, Tup):
            r = self.m_tuple(o, name, args, kw, st, cx, node)
        elif isinstance(o, Func) and name == "__get__":
            r = [(st, XO("bm", o, args[0]))]
        else:
            r = None
        if r is None:
            return [(st, self.undecided(st, f"method {name}", node, cx,
                                        Tup((o,) + tuple(args) + tuple(kw.values()))))]
        return r

    def m_inst(self, o, ob, name, args, kw, st, cx, node):
        if name == "__init__":
            if self.is_exc(st, ob):
                st.put(o, Inst(ob.cls, {**ob.attrs, "args": Tup(args)}))
            return [(st, None)]
        if name == "with_traceback":
            return [(st, o)]
        if name == "add_note":
            n = ob.attrs.get("__notes__", Tup(()))
            st.put(o, Inst(ob.cls, {**ob.attrs, "__notes__": Tup(n.items + tuple(args[:1]))}), self.where(node, cx))
            return [(st, None)]
        if name == "__setattr__":
            if isinstance(args[0], str):
                st.put(o, Inst(ob.cls, {**ob.attrs, args[0]: args[1]}), self.where(node, cx))
                return [(st, None)]
        if name in ("__str__", "__repr__"):
            a = ob.attrs.get("args", Tup(()))
            if self.is_exc(st, ob) and len(a.items) == 1 and isstr(a.items[0]):
                return [(st, a.items[0])]
            return [(st, SS((T("fmt", Unk("text", self.deep_taint(a, st))),)))]
        if name == "__eq__":
            return [(st, same(o, args[0]))]
        if name == "__hash__":
            return [(st, Unk("hash"))]
        return None

    def m_tuple(self, o, name, args, kw, st, cx, node):
        if name == "count":
            return None
        if name == "index":
            cur = [st]
            out = []
            for i, x in enumerate(o.items):
                nxt = []
                for s in cur:
                    for y, b in self.equal(args[0], x, s, cx, node):
                        if b:
                            out.append((y, i))
                        else:
                            nxt.append(y)
                cur = nxt
            for s in cur:
                self.throw(s, "ValueError", "tuple.index(x): x not in tuple", node, cx)
            return out
        if name == "_asdict" and o.cls is not None:
            flds = self.find_attr(st, o.cls, "_fields")
            return [(st, st.new(DObj(tuple(zip(flds.items, o.items)))))]
        if name == "_replace" and o.cls is not None:
            flds = self.find_attr(st, o.cls, "_fields").items
            return [(st, Tup([kw.get(k, v) for k, v in zip(flds, o.items)], cls=o.cls))]
        return None

    def m_list(self, o, ob, name, args, kw, st, cx, node):
        w = self.where(node, cx)
        items = list(ob.items)
        if name == "append":
            st.put(o, LObj(items + [args[0]]), w)
            return [(st, None)]
        if name == "extend":
            out = []
            for y, i in self.iterate(args[0], st, cx, node):
                if i is None:
                    y.mark("extend with unknown")
                    i = []
                y.put(o, LObj(list(y.get(o).items) + list(i)), w)
                out.append((y, None))
            return out
        if name == "insert" and isinstance(args[0], int):
            items.insert(args[0], args[1])
            st.put(o, LObj(items), w)
            return [(st, None)]
        if name == "pop":
            k = args[0] if args else -1
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    return self.throw(st, "IndexError", "pop index out of range", node, cx)
                v = items.pop(k)
                st.put(o, LObj(items), w)
                return [(st, v)]
        if name == "reverse":
            st.put(o, LObj(items[::-1]), w)
            return [(st, None)]
        if name == "copy":
            return [(st, st.alloc_list(items))]
        if name == "clear":
            st.put(o, LObj(()), w)
            return [(st, None)]
        if name == "sort" and all(isconst(i) for i in items) and not kw.get("key"):
            st.put(o, LObj(sorted(items, reverse=bool(kw.get("reverse", False)))), w)
            return [(st, None)]
        if name == "index":
            return self.m_tuple(Tup(items), "index", args, kw, st, cx, node)
        if name == "count" and all(isconst(i) for i in items) and isconst(args[0]):
            return [(st, items.count(args[0]))]
        if name == "remove":
            for i, x in enumerate(items):
                if same(x, args[0]):
                    st.put(o, LObj(items[:i] + items[i + 1:]), w)
                    return [(st, None)]
            if all(isconst(i) for i in items) and isconst(args[0]):
                return self.throw(st, "ValueError", "list.remove(x)", node, cx)
        if name in ("__len__", "__iter__", "__getitem__", "__contains__"):
            return self.dunder(o, name, args, st, cx, node)
        return None

    def dunder(self, o, name, args, st, cx, node):
        if name == "__len__":
            return self.f_len([o], {}, st, cx, node)
        if name == "__iter__":
            return self.f_iter([o], {}, st, cx, node)
        if name == "__getitem__":
            return self.getitem(o, args[0], st, cx, node)
        if name == "__contains__":
            return self.contains(o, args[0], st, cx, node)
        if name == "__eq__":
            return self.equal(o, args[0], st, cx, node)
        if name == "__add__":
            return self.binop("Add", o, args[0], st, cx, node)
        return None

    def m_dict(self, o, ob, name, args, kw, st, cx, node):
        from interp import dset
        w = self.where(node, cx)
        if name == "get":
            return self.dict_get(o, ob, args[0], st, cx, node,
                                 default=args[1] if len(args) > 1 else kw.get("default"))
        if name in ("keys", "__iter__"):
            return [(st, st.alloc_list([k for k, _ in ob.items]))]
        if name == "values":
            return [(st, st.alloc_list([v for _, v in ob.items]))]
        if name == "items":
            return [(st, st.alloc_list([Tup(p) for p in ob.items]))]
        if name == "copy":
            return [(st, st.new(DObj(ob.items, ob.default)))]
        if name == "clear":
            st.put(o, DObj((), ob.default), w)
            return [(st, None)]
        if name == "update":
            out = []
            for y, d in (self.f_dict(args, kw, st, cx, node) or []):
                if not isinstance(d, Ref):
                    y.mark("update with unknown")
                    out.append((y, None))
                    continue
                items = list(y.get(o).items)
                for k, v in y.get(d).items:
                    items = dset(items, k, v)
                y.put(o, DObj(items, ob.default), w)
                out.append((y, None))
            return out
        if name == "setdefault":
            d = args[1] if len(args) > 1 else None
            for k, v in ob.items:
                if same(k, args[0]):
                    return [(st, v)]
            if isconst(args[0]) and all(isconst(k) for k, _ in ob.items):
                st.put(o, DObj(dset(ob.items, args[0], d), ob.default), w)
                return [(st, d)]
            st.mark("setdefault with a symbolic key")
            st.put(o, DObj(dset(ob.items, args[0], d), ob.default), w)
            return [(st, Unk("dictionary value", taint(d)))]
        if name == "pop":
            for k, v in ob.items:
                if same(k, args[0]):
                    st.put(o, DObj(tuple(p for p in ob.items if not same(p[0], k)), ob.default), w)
                    return [(st, v)]
            if isconst(args[0]) and all(isconst(k) for k, _ in ob.items):
                if len(args) > 1:
                    return [(st, args[1])]
                return self.throw(st, "KeyError", args[0], node, cx)
            return None
        if name == "popitem" and ob.items:
            st.put(o, DObj(ob.items[:-1], ob.default), w)
            return [(st, Tup(ob.items[-1]))]
        return self.dunder(o, name, args, st, cx, node)

    def m_set(self, o, ob, name, args, kw, st, cx, node):
        w = self.where(node, cx)
        if name == "add":
            st.put(o, SetObj(self.dedup(list(ob.items) + [args[0]])), w)
            return [(st, None)]
        if name == "copy":
            return [(st, st.new(ob))]
        if name in ("discard", "remove") and isconst(args[0]) and all(isconst(i) for i in ob.items):
            if name == "remove" and args[0] not in ob.items:
                return self.throw(st, "KeyError", args[0], node, cx)
            st.put(o, SetObj([i for i in ob.items if i != args[0]]), w)
            return [(st, None)]
        ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor",
               "update": "BitOr", "intersection_update": "BitAnd", "difference_update": "Sub"}
        if name in ops and len(args) == 1:
            out = []
            for y, s in self.f_set([args[0]], {}, st, cx, node):
                for z, r in self.binop(ops[name], o, s, y, cx, node):
                    if name.endswith("update"):
                        if isinstance(r, Ref):
                            z.put(o, z.get(r), w)
                        out.append((z, None))
                    else:
                        out.append((z, r))
            return out
        if name in ("issubset", "issuperset", "isdisjoint") and len(args) == 1:
            r = self.iterate(args[0], st, cx, node)
            if len(r) == 1 and r[0][1] is not None and all(isconst(i) for i in list(r[0][1]) + list(ob.items)):
                return [(r[0][0], getattr(set(ob.items), name)(set(r[0][1])))]
        return self.dunder(o, name, args, st, cx, node)

    def m_bytearray(self, o, ob, name, args, kw, st, cx, node):
        w = self.where(node, cx)
        d = ob.data
        if name == "append":
            out = []
            for y, b in self.to_bytes_like(Tup((args[0],)), st, cx, node):
                y.put(o, BAObj(bcat(d, b) if isbytes(b) and isbytes(d) else Unk("bytes", taint(b) | taint(d))), w)
                out.append((y, None))
            return out
        if name == "extend":
            out = []
            for y, b in self.to_bytes_like(args[0], st, cx, node):
                y.put(o, BAObj(bcat(d, b) if isbytes(b) and isbytes(d) else Unk("bytes", taint(b) | taint(d))), w)
                out.append((y, None))
            return out
        if name == "insert" and isinstance(args[0], int) and fixed(d):
            out = []
            n = len(d)
            k = max(0, args[0] + n) if args[0] < 0 else min(args[0], n)
            for y, b in self.to_bytes_like(Tup((args[1],)), st, cx, node):
                y.put(o, BAObj(bcat(bslice(d, 0, k), b, bslice(d, k, n))), w)
                out.append((y, None))
            return out
        if name == "reverse" and fixed(d):
            st.put(o, BAObj(bcat(*[bslice(d, i, i + 1) for i in range(len(d) - 1, -1, -1)])), w)
            return [(st, None)]
        if name == "pop" and fixed(d):
            k = args[0] if args else -1
            if isinstance(k, int) and -len(d) <= k < len(d):
                k %= len(d)
                v = int_bits(vbits(d)[8 * k:8 * k + 8])
                st.put(o, BAObj(bcat(bslice(d, 0, k), bslice(d, k + 1, len(d)))), w)
                return [(st, v)]
            return self.throw(st, "IndexError", "pop", node, cx)
        if name == "clear":
            st.put(o, BAObj(b""), w)
            return [(st, None)]
        if name == "copy":
            return [(st, st.new(BAObj(d)))]
        r = self.m_bytes(d, name, args, kw, st, cx, node)
        if r is None:
            return None
        if name in ("decode", "hex", "startswith", "endswith", "find", "index", "count"):
            return r
        return [(y, y.new(BAObj(v)) if isbytes(v) else v) for y, v in r]

    def m_hash(self, o, ob, name, args, kw, st, cx, node):
        if name == "update":
            if isstr(args[0]):
                return self.throw(st, "TypeError", "Strings must be encoded before hashing", node, cx)
            out = []
            for y, d in self.to_bytes_like(args[0], st, cx, node):
                if isinstance(d, Unk) or isinstance(ob.data, Unk):
                    n = Unk("hash input", taint(d) | taint(ob.data))
                else:
                    n = bcat(ob.data, d)
                y.put(o, HashObj(ob.algo, n), self.where(node, cx))
                out.append((y, None))
            return out
        if name == "digest":
            return [(st, self.digest(ob))]
        if name == "hexdigest":
            d = self.digest(ob)
            return [(st, mkhex(d) if isbytes(d) else Unk("hexdigest", taint(d)))]
        if name == "copy":
            return [(st, st.new(ob))]
        return None

    def m_int(self, v, name, args, kw, st, cx, node):
        if name == "to_bytes":
            n = args[0] if args else kw.get("length", 1)
            order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
            return self.int_to_bytes(v, n, order, kw.get("signed", False), st, cx, node)
        if name == "bit_length":
            return self.bit_length(v, st, cx, node)
        if name == "from_bytes":
            return self.f_int_from_bytes(args, kw, st, cx, node)
        if name == "bit_count" and isconst(v):
            return [(st, v.bit_count())]
        if name in ("__add__", "__radd__"):
            return self.binop("Add", v, args[0], st, cx, node)
        if name in ("__xor__", "__rxor__"):
            return self.binop("BitXor", v, args[0], st, cx, node)
        if name in ("__int__", "__index__", "conjugate"):
            return [(st, v)]
        return self.dunder(v, name, args, st, cx, node)

    # ---- bytes
    def bytes_decode(self, v, enc, st, cx, node, errors="strict"):
        if isinstance(v, Unk):
            return [(st, Unk("decoded text", v.taint))]
        if isstr(v):
            return self.throw(st, "TypeError", "decoding str is not supported", node, cx)
        if not isbytes(v) or not isinstance(enc, str):
            return None
        if isinstance(v, bytes):
            try:
                return [(st, v.decode(enc, errors if isinstance(errors, str) else "strict"))]
            except (UnicodeDecodeError, LookupError) as e:
                return self.throw(st, type(e).__name__, "decode", node, cx)
        s = self.decode_bytes(v)
        if s is not None and enc in UTF8 | ASCII | LATIN:
            return [(st, s)]
        out = []
        if enc in LATIN:
            return [(st, SS((T("decodelatin", v),)))]
        key = ("decodable", enc, v)
        for y, ok in st.branch(("flag", key)):
            if ok or errors != "strict":
                kind = "decodeutf8" if enc in UTF8 and ok else "decodeother"
                out.append((y, SS((T(kind, v) if kind == "decodeutf8" else T(kind, enc, errors, v),))))
            else:
                self.throw(y, "UnicodeDecodeError", "", node, cx)
        return out

    def decode_bytes(self, v):
        """the text these bytes are the UTF-8 encoding of, when known"""
        parts = v.parts if isinstance(v, VB) else (v,)
        out = []
        for p in parts:
            if isinstance(p, Term):
                if p.kind == "utf8":
                    out.append(SS((p.args[0],)))
                    continue
                return None
            if isinstance(p, bytes):
                try:
                    out.append(p.decode("utf-8"))
                    continue
                except UnicodeDecodeError:
                    return None
            # a BV: printable single bytes
            bits = p.bits
            for i in range(0, len(bits), 8):
                bb = bits[i:i + 8]
                if all(b <= 1 for b in bb):
                    c = 0
                    for b in bb:
                        c = c << 1 | b
                    if c > 127:
                        return None
                    out.append(chr(c))
                    continue
                t = whole(mkbytes(bb))
                if t is not None and t.kind == "tabbyte" and all(c < 128 for c in t.args[0]):
                    out.append(SS((T("tabch", t.args[0].decode(), t.args[1]),)))
                    continue
                if bb[0] == 0:
                    out.append(SS((T("ch", mkbytes(bb)),)))
                    continue
                return None
        return scat(*out) if out else ""

    def m_bytes(self, v, name, args, kw, st, cx, node):
        args = [self.unwrap(a, st) for a in args]
        if name == "hex":
            if args:
                return None
            return [(st, mkhex(v))]
        if name == "decode":
            enc = args[0] if args else kw.get("encoding", "utf-8")
            return self.bytes_decode(v, enc, st, cx, node, args[1] if len(args) > 1 else kw.get("errors", "strict"))
        if name == "fromhex":
            return self.f_bytes_fromhex(args, kw, st, cx, node)
        if isinstance(v, bytes) and not kw and all(isconst(a) or isinstance(a, Tup) and
                                                   all(isconst(x) for x in a.items) for a in args) and \
                name not in ("join",):
            pa = [tuple(a.items) if isinstance(a, Tup) else a for a in args]
            m = getattr(v, name, None)
            if m is not None and not name.startswith("__"):
                try:
                    r = m(*pa)
                except (TypeError, ValueError, IndexError) as e:
                    return self.throw(st, type(e).__name__, str(e), node, cx)
                return [(st, self.wrap_const(r, st))]
        if name in ("startswith", "endswith"):
            ps = args[0].items if isinstance(args[0], Tup) else (args[0],)
            if len(args) > 1:
                return None
            out = []
            cur = [st]
            for p in ps:
                nxt = []
                if isstr(p):
                    return self.throw(st, "TypeError", "startswith first arg must be bytes", node, cx)
                if not fixed(p):
                    return None
                for s in cur:
                    r = None
                    if fixed(v):
                        if len(p) > len(v):
                            r = [(s, False)]
                        else:
                            part = bslice(v, 0, len(p)) if name == "startswith" else \
                                bslice(v, len(v) - len(p), len(v))
                            r = self.eqbits(vbits(part), vbits(p), s)
                    else:
                        e = v.parts[0] if name == "startswith" else v.parts[-1]
                        if not isinstance(e, Term) and len(e) >= len(p):
                            part = bslice(e, 0, len(p)) if name == "startswith" else bslice(e, len(e) - len(p), len(e))
                            r = self.eqbits(vbits(part), vbits(p), s)
                        else:
                            r = self.fork_unknown(s, f"{name} of bytes of unknown length", cx, node)
                    for y, b in r:
                        if b:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(s, False) for s in cur]
        if name in ("lstrip", "rstrip", "strip") and fixed(v):
            chars = args[0] if args else b" \t\n\r\x0b\x0c"
            if not isinstance(chars, bytes):
                return None
            res = [(st, v)]
            if name in ("lstrip", "strip"):
                res = [x for y, d in res for x in self.strip_side(d, chars, True, y, cx, node)]
            if name in ("rstrip", "strip"):
                res = [x for y, d in res for x in self.strip_side(d, chars, False, y, cx, node)]
            return res
        if name in ("rjust", "ljust", "zfill", "center") and fixed(v) and isinstance(args[0], int):
            fill = b"0" if name == "zfill" else (args[1] if len(args) > 1 else b" ")
            n = args[0] - len(v)
            if not isinstance(fill, bytes) or len(fill) != 1 or name == "center":
                return None
            if n <= 0:
                return [(st, v)]
            return [(st, bcat(v, fill * n) if name == "ljust" else bcat(fill * n, v))]
        if name == "join":
            out = []
            for y, items in self.iterate(args[0], st, cx, node):
                if items is None:
                    out.append((y, self.undecided(y, "join of unknown", node, cx, args[0])))
                    continue
                parts = []
                bad = False
                for i, it in enumerate(items):
                    it = self.unwrap(it, y)
                    if not isbytes(it):
                        bad = True
                        break
                    if i:
                        parts.append(v)
                    parts.append(it)
                if bad:
                    if isinstance(it, Unk):
                        out.append((y, Unk("joined bytes", taint(Tup(items)))))
                    else:
                        self.throw(y, "TypeError", "sequence item: expected a bytes-like object", node, cx)
                    continue
                out.append((y, bcat(*parts) if parts else b""))
            return out
        if name in ("find", "index") and isinstance(v, bytes) and len(args) == 1:
            x = args[0]
            if isinstance(x, BV) and len(x) == 1:
                x = int_bits(x.bits)
            if isinstance(x, SI):
                return self.table_find(v, x, st, cx, node, name)
        if name in ("find", "index") and len(args) == 1 and isbytes(args[0]) and fixed(args[0]) and fixed(v) and \
                1 < len(args[0]) <= len(v) <= 256:
            out = []
            for y, i in self.find_bytes(v, args[0], st):
                if i is not None or name == "find":
                    out.append((y, -1 if i is None else i))
                else:
                    self.throw(y, "ValueError", "subsection not found", node, cx)
            return out
        if name in ("find", "index") and isinstance(v, BV) and len(args) == 1 and \
                (isinstance(args[0], int) or isinstance(args[0], bytes) and len(args[0]) == 1):
            x = args[0] if isinstance(args[0], int) else args[0][0]
            cur = [st]
            out = []
            for i in range(len(v)):
                nxt = []
                for s in cur:
                    for y, b in self.eqbits(v.bits[8 * i:8 * i + 8], cbits(bytes([x])), s):
                        if b:
                            out.append((y, i))
                        else:
                            nxt.append(y)
                cur = nxt
            for s in cur:
                if name == "find":
                    out.append((s, -1))
                else:
                    self.throw(s, "ValueError", "subsection not found", node, cx)
            return out
        if name == "count" and fixed(v) and len(v) <= 12 and isinstance(args[0], (int, bytes)):
            x = args[0] if isinstance(args[0], int) else (args[0][0] if len(args[0]) == 1 else None)
            if x is None:
                return None
            cur = [(st, 0)]
            for i in range(len(v)):
                nxt = []
                for s, c in cur:
                    for y, b in self.eqbits(vbits(v)[8 * i:8 * i + 8], cbits(bytes([x])), s):
                        nxt.append((y, c + b))
                cur = nxt
            return cur
        if name == "removeprefix" or name == "removesuffix":
            p = args[0]
            out = []
            if not fixed(p) or not fixed(v):
                return None
            for y, b in self.m_bytes(v, "startswith" if name == "removeprefix" else "endswith", [p], {}, st, cx, node):
                out.append((y, (bslice(v, len(p), len(v)) if name == "removeprefix" else
                                bslice(v, 0, len(v) - len(p))) if b else v))
            return out
        if name in ("__len__", "__iter__", "__getitem__", "__contains__", "__eq__", "__add__"):
            return self.dunder(v, name, args, st, cx, node)
        if name == "replace" and len(args) == 2 and isinstance(args[0], bytes) and len(args[0]) == 1 and \
                isbytes(args[1]) and fixed(v) and len(v) <= 24:
            return self.bytes_replace(v, args[0], args[1], st, cx, node)
        if name == "translate" or name in ("upper", "lower", "split", "replace", "partition", "rpartition"):
            return None
        return None

    def bytes_replace(self, v, old, new, st, cx, node):
        """one byte replaced: exact where it occurs at most once"""
        def scan(states, lo):
            """(states in which `old` is nowhere from position lo on, [(state, first position)])"""
            hit = []
            for i in range(lo, len(v)):
                nxt = []
                for s in states:
                    for y, b in self.eqbits(vbits(v)[8 * i:8 * i + 8], cbits(old), s):
                        (hit if b else nxt).append((y, i) if b else y)
                states = nxt
            return states, hit
        none, hits = scan([st], 0)
        out = [(y, v) for y in none]
        for y, i in hits:
            one, more = scan([y], i + 1)
            out += [(z, bcat(bslice(v, 0, i), new, bslice(v, i + 1, len(v)))) for z in one]
            if more:
                z = more[0][0]
                out.append((z, self.undecided(z, "repeated replacement in bytes", node, cx, v)))
        return out

    def wrap_const(self, r, st):
        if isinstance(r, list):
            return st.alloc_list([self.wrap_const(x, st) for x in r])
        if isinstance(r, tuple):
            return Tup([self.wrap_const(x, st) for x in r])
        if isinstance(r, dict):
            return Unk("table")
        return r

    def table_find(self, tab, x, st, cx, node, name):
        """position of the byte x in the constant table"""
        bits = ibits(x)
        if bits is None or len(bits) > 8:
            return None
        out = []
        for y, inn in self.contains(tab, x, st, cx, node):
            if inn:
                out.append((y, iatom(T("find", tab, x))))
            elif name == "find":
                out.append((y, -1))
            else:
                self.throw(y, "ValueError", "subsection not found", node, cx)
        return out

    def strip_side(self, v, chars, left, st, cx, node):
        """strip leading/trailing bytes of the set `chars`: one result per count"""
        out = []
        n = len(v)
        cur = st
        ss = frozenset(chars)
        for k in range(n):
            i = k if left else n - 1 - k
            bits = vbits(v)[8 * i:8 * i + 8]
            nxt = None
            if len(ss) == 1:
                res = self.eqbits(bits, cbits(bytes(ss)), cur)
            else:
                vs = cur.store.values(bits)
                if vs is None:
                    res = self.fork_unknown(cur, "strip", cx, node)
                elif vs <= ss:
                    res = [(cur, True)]
                elif not vs & ss:
                    res = [(cur, False)]
                else:
                    res = cur.branch(("in", tuple(bits), ss))
            for y, b in res:
                if b:
                    nxt = y
                else:
                    out.append((y, bslice(v, k, n) if left else bslice(v, 0, n - k)))
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, b""))
        return out

    # ---- strings
    def str_encode(self, v, enc, st, cx, node, errors="strict"):
        if isinstance(v, Unk):
            return [(st, Unk("encoded text", v.taint))]
        if not isinstance(enc, str):
            return None
        if isinstance(v, str):
            try:
                return [(st, v.encode(enc, errors if isinstance(errors, str) else "strict"))]
            except UnicodeEncodeError:
                return self.throw(st, "UnicodeEncodeError", "", node, cx)
            except LookupError:
                return self.throw(st, "LookupError", "unknown encoding", node, cx)
        if not isinstance(v, SS):
            return self.throw(st, "TypeError", "encoding without a string argument", node, cx)
        if enc in UTF8 and isinstance(errors, str) and errors not in ("strict", "surrogatepass") and \
                any(isinstance(p, Term) and p.kind in ("in", "normalize", "strcall", "case") for p in v.parts):
            # a text with lone surrogates is not refused but changed
            st.event("lossy", errors, v, self.where(node, cx))
        if enc in UTF8:
            return [(st, encode_str(v))]
        asc = all(isinstance(p, str) and p.isascii() or isinstance(p, Term) and
                  (p.kind in ("hex", "HEX", "hexint", "ch") or p.kind in ("b58", "tabch") and
                   isinstance(p.args[0], str) and p.args[0].isascii()) for p in v.parts)
        if enc in ASCII or enc in LATIN:
            if asc:
                return [(st, encode_str(v))]
            out = []
            for y, ok in st.branch(("flag", ("isascii" if enc in ASCII else "islatin", v))):
                if ok and enc in ASCII:
                    out.append((y, encode_str(v)))
                elif ok:
                    out.append((y, VB((T("encode", "latin-1", "strict", v),))))
                elif errors == "strict":
                    self.throw(y, "UnicodeEncodeError", "", node, cx)
                else:
                    out.append((y, VB((T("encode", enc, errors, v),))))
            return out
        return [(st, VB((T("encode", enc, errors, v),)))]

    PRED = {"isascii", "isdigit", "isalnum", "isalpha", "isdecimal", "isnumeric", "islower", "isupper", "isspace",
            "isprintable", "isidentifier", "istitle"}

    def m_str(self, v, name, args, kw, st, cx, node):
        if name == "encode":
            enc = args[0] if args else kw.get("encoding", "utf-8")
            return self.str_encode(v, enc, st, cx, node, args[1] if len(args) > 1 else kw.get("errors", "strict"))
        if name == "join":
            out = []
            for y, items in self.iterate(args[0], st, cx, node):
                if items is None:
                    a = args[0]
                    p = a.why if isinstance(a, Unk) else None
                    if isinstance(p, Term) and p.kind == "strparts" and p.args[0] in ("split", "rsplit") and \
                            len(p.args) in (3, 4) and same(p.args[2], v):
                        out.append((y, p.args[1]))
                    elif isinstance(a, Unk):
                        out.append((y, SS((T("strcall", "join", v, a),))))
                    else:
                        out.append((y, self.undecided(y, "join of unknown", node, cx, a)))
                    continue
                parts = []
                bad = None
                for i, it in enumerate(items):
                    if not isstr(it):
                        bad = it
                        break
                    if i:
                        parts.append(v)
                    parts.append(it)
                if bad is not None:
                    if isinstance(bad, Unk):
                        out.append((y, Unk("joined text", taint(Tup(items)))))
                    else:
                        self.throw(y, "TypeError", "sequence item: expected str instance", node, cx)
                    continue
                out.append((y, scat(*parts) if parts else ""))
            return out
        if name == "format":
            return self.str_format(v, args, kw, st, cx, node)
        cargs = []
        ok = True
        for a in args:
            if isconst(a):
                cargs.append(a)
            elif isinstance(a, Tup) and all(isconst(x) for x in a.items):
                cargs.append(tuple(a.items))
            elif isinstance(a, Ref) and isinstance(st.get(a), DObj) and \
                    all(isconst(k) and isconst(x) for k, x in st.get(a).items):
                cargs.append(dict(st.get(a).items))
            else:
                ok = False
        ckw = {k: x for k, x in kw.items() if isconst(x)}
        if isinstance(v, str) and ok and len(ckw) == len(kw):
            m = getattr(v, name, None)
            if m is not None and not name.startswith("__"):
                try:
                    r = m(*cargs, **ckw)
                except (TypeError, ValueError, IndexError) as e:
                    return self.throw(st, type(e).__name__, str(e), node, cx)
                return [(st, self.wrap_const(r, st))]
        if name in ("find", "index") and isinstance(v, str) and len(args) == 1 and isinstance(args[0], SS):
            t = sterm(args[0])
            if t is not None and t.kind == "ch":
                if not v.isascii():
                    return None
                return self.table_find(v.encode(), int_bits(t.args[0].bits), st, cx, node, name)
            if t is not None and t.kind == "tabch" and t.args[0] == v and len(set(v)) == len(v):
                return [(st, t.args[1])]
        if name in ("find", "index", "rfind", "rindex", "count") and isinstance(v, SS):
            key = ("strnum", name, v) + tuple(repr(a) if not isconst(a) else a for a in args)
            if name in ("find", "rfind", "count"):
                return [(st, iatom(T("strnum", name, v, *[a if isconst(a) or isinstance(a, SS) else repr(a)
                                                         for a in args])))]
            return None
        if not isinstance(v, SS):
            return self.dunder(v, name, args, st, cx, node)
        if name in ("startswith", "endswith"):
            return self.str_starts(v, name, args, st, cx, node)
        t = sterm(v)
        if name == "lower" and all(isinstance(p, Term) and p.kind in ("hex", "hexint") or
                                   isinstance(p, str) and p == p.lower() for p in v.parts):
            return [(st, v)]
        if name in ("lower", "upper", "casefold"):
            ps = []
            for p in v.parts:
                if isinstance(p, str):
                    ps.append(getattr(p, name)())
                elif p.kind in ("hex", "HEX"):
                    ps.append(SS((T("HEX" if name == "upper" else "hex", p.args[0]),)))
                else:
                    ps = None
                    break
            if ps is not None:
                return [(st, scat(*ps))]
        if name in ("strip", "lstrip", "rstrip") and (not args or args[0] is None or isinstance(args[0], str)):
            if t is not None and t.kind in ("b58", "hex", "HEX", "hexint") and (not args or args[0] is None or not (
                    set(args[0]) & (set(t.args[0]) if t.kind == "b58" else set("0123456789abcdefABCDEF")))):
                return [(st, v)]
        if name in ("zfill", "rjust") and isinstance(args[0], int) and \
                (name == "zfill" or (args[1] if len(args) > 1 else " ") == "0"):
            n = self.length(v, st)
            if isinstance(n, int):
                return [(st, scat("0" * max(0, args[0] - n), v))]
            if t is not None and t.kind == "hexint":
                r = self.hex_str(t.args[0], "0%d" % args[0], st)
                if r is not None:
                    return [(st, r)]
        if name in self.PRED:
            if t is not None and t.kind in ("b58", "hex") and name in ("isascii", "isalnum", "isprintable"):
                return [(st, True)]
            if t is not None and t.kind == "ch" and name in ("isascii",):
                return [(st, True)]
            return st.branch(("flag", ("strpred", name, v)))
        if name in ("__len__", "__iter__", "__getitem__", "__contains__", "__eq__", "__add__"):
            return self.dunder(v, name, args, st, cx, node)
        if name in ("removeprefix", "removesuffix") and args and isinstance(args[0], str):
            out = []
            for y, b in self.str_starts(v, "startswith" if name == "removeprefix" else "endswith",
                                        [args[0]], st, cx, node):
                if not b:
                    out.append((y, v))
                elif name == "removeprefix" and isinstance(v.parts[0], str) and len(v.parts[0]) >= len(args[0]):
                    out += self.ss_slice(v, len(args[0]), None, None, y, cx, node)
                else:
                    out.append((y, SS((T("strcall", name, v, args[0]),))))
            return out
        if name == "replace" and len(args) >= 2 and isinstance(args[0], str) and isinstance(args[1], str):
            if all(isinstance(p, str) or p.kind in ("hex", "b58") and args[0] and
                   not set(args[0]) <= set("0123456789abcdef" if p.kind == "hex" else p.args[0])
                   for p in v.parts):
                return [(st, scat(*[p.replace(args[0], args[1]) if isinstance(p, str) else SS((p,))
                                    for p in v.parts]))]
        args = [self.frozen(a, st) for a in args]
        if name in ("partition", "rpartition") and len(args) == 1 and isinstance(args[0], str) and args[0]:
            p = T("strparts", name, v, args[0])
            return [(st, Tup(tuple(SS((T("stritem", p, i),)) for i in range(3))))]
        if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            return [(st, Unk(T("strparts", name, v, *args), v.taint))]
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase",
                    "replace", "translate", "expandtabs", "center", "ljust", "rjust", "zfill"):
            return [(st, SS((T("strcall", name, v, *args),)))]
        return None

    def frozen(self, a, st):
        """an argument as part of a term: tables by their contents, so that the
        same table built twice is the same argument"""
        if isconst(a) or isinstance(a, SS):
            return a
        if isinstance(a, Ref):
            o = st.get(a)
            if isinstance(o, DObj) and o.default is None and all(isconst(k) and isconst(x) for k, x in o.items):
                return ("dict",) + tuple((k, x) for k, x in o.items)
        return "?" + repr(a)

    def str_starts(self, v, name, args, st, cx, node):
        if len(args) > 1:
            return None
        ps = args[0].items if isinstance(args[0], Tup) else (args[0],)
        out = []
        cur = [st]
        for p in ps:
            nxt = []
            for s in cur:
                for y, b in self._starts1(v, name, p, s, cx, node):
                    if b:
                        out.append((y, True))
                    else:
                        nxt.append(y)
            cur = nxt
        return out + [(s, False) for s in cur]

    def _starts1(self, v, name, p, st, cx, node):
        if isinstance(p, Unk):
            return self.fork_unknown(st, name, cx, node)
        if isbytes(p):
            return self.throw(st, "TypeError", f"{name} first arg must be str", node, cx)
        if p == "":
            return [(st, True)]
        if isinstance(p, str):
            e = v.parts[0] if name == "startswith" else v.parts[-1]
            if isinstance(e, str):
                if len(e) >= len(p):
                    return [(st, getattr(e, name)(p))]
                k = len(e)
                if name == "startswith" and not p.startswith(e) or name == "endswith" and not p.endswith(e):
                    return [(st, False)]
            elif e.kind == "b58" and name == "startswith":
                bd = b58_bounds(e)
                if bd is not None:
                    if bd[2].startswith(p):
                        return [(st, True)]
                    if not p.startswith(bd[2][:len(p)]) or set(p) - set(e.args[0]):
                        return [(st, False)]
                    if len(v.parts) == 1 and bd[1] < len(p):
                        return [(st, False)]
            elif e.kind == "hex" and fixed(e.args[0]):
                n = 2 * len(e.args[0])
                if set(p) - set("0123456789abcdef"):
                    return [(st, False)]
                if len(p) <= n and len(p) % 2 == 0:
                    d = e.args[0]
                    part = bslice(d, 0, len(p) // 2) if name == "startswith" else bslice(d, len(d) - len(p) // 2, len(d))
                    return self.eqbits(vbits(part), cbits(bytes.fromhex(p)), st)
                if len(v.parts) == 1 and len(p) > n:
                    return [(st, False)]
            return st.branch(("flag", ("strpred", name, v, p)))
        return st.branch(("flag", ("strpred", name, v, p)))

    def str_format(self, v, args, kw, st, cx, node):
        if not isinstance(v, str):
            return None
        import string
        cur = [(st, "")]
        auto = 0
        try:
            parsed = list(string.Formatter().parse(v))
        except ValueError:
            return self.throw(st, "ValueError", "format", node, cx)
        for lit, fld, spec, conv in parsed:
            nxt = []
            if fld is None:
                cur = [(y, scat(acc, lit)) for y, acc in cur]
                continue
            key = fld
            if key == "":
                key = str(auto)
                auto += 1
            if key.isdigit():
                if int(key) >= len(args):
                    return self.throw(st, "IndexError", "format", node, cx)
                x = args[int(key)]
            elif key in kw:
                x = kw[key]
            else:
                return None
            if "{" in (spec or ""):
                return None
            for y, acc in cur:
                for z, s in self.format_value(x, spec or "", conv or "", y, cx, node):
                    nxt.append((z, scat(acc, lit, s)))
            cur = nxt
        return cur
