"""Histories: what an earlier call leaves behind.

On the current tree no call changes an object older than itself (C19), so every
obligation about a call made in the state after import holds after any other
calls as well.  When some call of a check does change older state, that is no
longer so: the obligations are then put again in the states such calls leave,
with the inputs of the earlier call renamed, so that they are unrelated to those
of the later one."""
import importlib
import sys
import time

import harness
from core import IterObj, gc

SKIP = {"C14", "C15", "C17", "C19", "C20"}      # have their own questions about earlier calls
MODS = ("flows", "bodies", "props_ops", "props_acc", "props_codec", "registry")


def settled(y):
    """a state in which a new call can be made"""
    z = y.fork()
    z.freeze()
    z.boundary = z.nref
    z.events = ()
    z.imprecise = ()
    z.depth = 0
    z.ret = None
    z.negl = False
    return z


def collect(R, prop, tier, stop):
    """the states that calls with renamed inputs leave behind"""
    Q = harness.Report(prop)
    Q.sessions = R.sessions
    Q.stop = stop
    kept = {n: sys.modules[n] for n in MODS if n in sys.modules}
    harness.PREFIX = "earlier "
    for s, _ in R.sessions:
        s.dirty = []
        s.collecting = True
    try:
        for n in MODS:
            sys.modules.pop(n, None)
        reg = importlib.import_module("registry")
        reg.CHECKS[prop][0](Q, tier)
    except (harness.Enough, harness.Undecided, harness.Missing, harness.AnalysisBroken):
        pass
    finally:
        harness.PREFIX = ""
        for n in MODS:
            sys.modules.pop(n, None)
        sys.modules.update(kept)
    out = []
    for s, _ in R.sessions:
        s.collecting = False
        out += [(s, d) for d in s.dirty]
    return out


def run(R, prop, fn, tier, deadline):
    if prop in SKIP or R.violations or not any(s.dirty for s, _ in R.sessions):
        return
    t = time.time()
    left = deadline - t
    if left < 20:
        R.und("histories", "no time left to analyse calls after earlier ones")
        return
    states = collect(R, prop, tier, t + left * 0.35)
    if len(states) > 3:                              # one per kind of change, the last ones (non-trivial inputs)
        kinds = {}
        for s, d in states:
            kinds[(id(s), d[0], d[3])] = (s, d)
        states = list(kinds.values())[:3]
    for s, (what, y, obj, _) in states:
        s.history = (settled(y), obj)
        before = len(R.violations)
        kept, R.tag = R.tag, f"after {what}: "
        proved = R.proved
        try:
            fn(R, tier)
        except (harness.Undecided, harness.Missing, harness.AnalysisBroken) as ex:
            R.und("histories", f"{type(ex).__name__}: {ex}")
        finally:
            s.history = None
            R.tag = kept
        if len(R.violations) > before:
            return


def worlds(R, fn, tier):
    """a package that reads the environment when it is imported is analysed with each such variable set, too"""
    names = sorted({n for s, _ in R.sessions for n in s.I.envread})
    for n, yes in [(n, yes) for n in names[:3] for yes in (True, False)]:
        if R.violations:
            return
        R.world = {n: True, "": yes}
        R.tag = f"with the environment variable {n} set{'' if yes else ' otherwise'}: "
        try:
            fn(R, tier)
        except (harness.Undecided, harness.Missing, harness.AnalysisBroken) as ex:
            if yes:
                R.und("environment", f"{type(ex).__name__}: {ex}")
        finally:
            R.world, R.tag = None, ""
