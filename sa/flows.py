"""The symbolic situations the properties quantify over, and pipelines of
library calls on them."""
from harness import *
import spec

NETS = ("mainnet", "testnet", "regtest")
DEFINED = NETS + ("stagenet",)       # with one that is never the effective one, at the end
WIFP = {n: inbytes("wif_prefix_" + n, 1) for n in DEFINED}
ADDP = {"mainnet": inbytes("addr_prefix_mainnet", 1), "testnet": inbytes("addr_prefix_testnet", 2),
        "regtest": inbytes("addr_prefix_regtest", 1), "stagenet": inbytes("addr_prefix_stagenet", 1)}
PW = instr("passphrase")
KEY = inbytes("private_key", 32)
SEED = inbytes("seed", 24)
SALT8 = inbytes("salt", 8)
SALT4 = inbytes("salt4", 4)
LOT = inint("lot")
SEQ = inint("sequence")
WTYPES = {False: "wif", True: "wif-compressed"}
PTYPES = {False: "uncompressed", True: "compressed"}
# (network of the instance, network of the call, effective network)
NETCASES = (("mainnet", None, "mainnet"), ("mainnet", "testnet", "testnet"),
            ("testnet", None, "testnet"), ("testnet", "mainnet", "mainnet"),
            ("regtest", None, "regtest"), ("testnet", "regtest", "regtest"))


class Env:
    """one analysis session with a cryptocurrency that stands for any
    cryptocurrency: its prefixes are symbolic"""

    def __init__(self, R, **kw):
        self.R = R
        self.S = R.session(**kw)
        self.I = self.S.I
        self.inst = {}
        self.shown = {}
        try:
            e = self.S.glob("bip38.exceptions", "Error")
        except Missing:
            raise AnalysisBroken("bip38.exceptions.Error is gone")
        self.Error = e
        self.S.glob("bip38", "BIP38")

    def start(self, net):
        if net not in self.inst and self.earlier(net) is not None:
            self.inst[net] = self.earlier(net)
        if net not in self.inst:
            y, b = self.S.instance({n: (WIFP[n], ADDP[n]) for n in DEFINED}, net)
            byte_range(y, ADDP["testnet"], 256, 65535)
            self.inst[net] = (y, b)
        y, b = self.inst[net]
        return y.fork(), b

    def earlier(self, net):
        """the instance an earlier call was made on, if it was one of these"""
        h = self.S.history
        if h is None or h[1] is None:
            return None
        o = h[0].get(h[1])
        if not isinstance(o, Inst) or o.attrs.get("network") != net:
            return None
        return h

    def meth(self, st, obj, name):
        try:
            return self.S.attr(st, obj, name)
        except Missing:
            raise AnalysisBroken(f"BIP38.{name} is gone")

    def op(self, st, obj, name, **kw):
        kw = {k: v for k, v in kw.items() if v is not OMIT}
        f = self.meth(st, obj, name)
        r = self.S.call(f, [], kw, st)
        r.site = self.S.site(f)
        r.name = name
        return r

    # ------------------------------------------------------------ outcomes
    def oks(self, r, what):
        """the precise, non-negligible normal outcomes; the others are counted
        as undecided"""
        for x in r.limits:
            self.R.und(what, x)
        out = []
        for y, v in r.oks:
            if y.imprecise:
                self.R.und(what, "; ".join(y.imprecise))
            elif not y.negl:
                out.append((y, v))
        return out

    def exs(self, r, what):
        out = []
        for y, e, w in r.exs:
            if y.imprecise:
                self.R.und(what, "; ".join(y.imprecise))
            elif not y.negl:
                out.append((y, e, w))
        return out

    def no_exception(self, r, what):
        """obligation: the call returns normally (up to negligible events)"""
        bad = self.exs(r, what)
        for y, e, w in bad:
            self.R.bad(what + ": returns normally", w,
                       f"{r.name} raises {self.S.exc(y, e)} for a valid request\non the path: "
                       f"{'; '.join(facts(y)) or 'every path'}")
        if not bad:
            if self.oks(r, what):
                self.R.ok(what + ": returns normally")
            elif not (r.limits or any(y.imprecise for y, _ in r.oks) or any(y.imprecise for y, _, _ in r.exs)):
                self.R.bad(what + ": returns normally", r.site, f"{r.name} never returns for a valid request")
        return not bad

    def only_errors(self, r, what, cls=None):
        """obligation: every exception is a library error"""
        cls = cls or self.Error
        n = 0
        for y, e, w in self.exs(r, what):
            if self.S.exc_is(y, e, cls):
                n += 1
            else:
                self.R.bad(what + ": library error", w,
                           f"{r.name} lets {self.S.exc(y, e)} escape (expected a subclass of "
                           f"{self.I.cls_name(y, cls)})\non the path: {'; '.join(facts(y)) or 'every path'}")
        if n:
            self.R.ok(what + ": library error", n)

    def displayable(self, r, what):
        """obligation: the text of every library error can be formed (str(error))"""
        for y, e, w in self.exs(r, what):
            if not self.S.exc_is(y, e, self.Error):
                continue
            k = (str(w), self.S.exc(y, e))
            self.shown[k] = self.shown.get(k, 0) + 1
            if self.shown[k] > 3:
                continue
            f = self.S.attr(y, e, "__str__")
            q = self.S.call(f, [], {}, y.fork())
            q.name, q.site = "str(error)", w
            for x in q.limits:
                self.R.und(what, x)
            for z, e2, w2 in self.exs(q, what):
                self.R.bad(what + ": the error can be displayed", w2,
                           f"str() of the {k[1]} raised at {w} raises {self.S.exc(z, e2)}")
            for z, v in q.oks:
                if z.imprecise or isinstance(v, Unk):
                    self.R.und(what, "text of an error not followed")
                elif not isstr(v):
                    self.R.bad(what + ": the error can be displayed", w, f"str() of the {k[1]} gives {show(v)[:100]}")
                else:
                    self.R.ok(what + ": the error can be displayed")

    def refused(self, r, what, cls=None):
        """obligation: the call never returns normally, and raises library errors"""
        acc = self.oks(r, what)
        for y, v in acc:
            self.R.bad(what + ": refused", y.ret, f"{r.name} returns {show(v)[:300]} instead of refusing\n"
                       f"on the path: {'; '.join(facts(y)) or 'every path'}")
        self.only_errors(r, what, cls)
        if not acc:
            self.R.ok(what + ": refused")

    # ------------------------------------------------------------ helpers
    def int_bytes(self, v, n, st):
        r = self.I.int_to_bytes(v, n, "big", False, st, self.S.cx, self.S.node)
        if len(r) != 1 or r[0][0].imprecise:
            return None
        return r[0][1]

    def keyprod(self, a, b, st):
        """32 bytes of a*b mod N"""
        return self.int_bytes(self.I.mod_(imul(spec.intof(a), spec.intof(b)), N, st), 32, st)


class _Omit:
    pass


OMIT = _Omit()


def hexof(b):
    return mkhex(b)


def set_lotseq(st):
    st.assume(("rng", (((LOT.poly[0][0][0],), 1),), ((100000, 999999),)), True)
    st.assume(("rng", (((SEQ.poly[0][0][0],), 1),), ((0, 4095),)), True)


def lotseq_bytes(E, st):
    return E.int_bytes(iadd(imul(LOT, 4096), SEQ), 4, st)


# ---------------------------------------------------------------- records
def dec_info(st, s, alpha=spec.B58):
    """(payload bytes incl. checksum, "valid"/"bad") of an opaque Base58 text on
    this path, or None when the path never decoded it"""
    for kind, pre in (("declen", "dec"), ("decbad", "decbad")):
        cur = st.store.flag.get((kind, "b58", s, alpha))
        if cur is not None and cur[0] == "is":
            n = cur[1]
            if n == 0:
                return b"", pre
            return tbytes(T(pre, s, alpha, n, size=n)), pre
    return None


def bit_cases(st, b):
    """split on one bit: [(state, 0/1)]"""
    n = st.store.nbit(b)
    if n <= 1:
        return [(st, n)]
    out = []
    for y, z in st.fork().branch(("eqbits", (n,))):
        out.append((y, 0 if z else 1))
    return out
