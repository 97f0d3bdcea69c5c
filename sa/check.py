#!/usr/bin/env python3
"""python3 sa/check.py <property>   analyse /repo and decide one property"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)

VERIF = os.path.dirname(HERE)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d["property"] == prop:
                    out.append(d)
    return out


def run(prop, tier):
    from core import AnalysisBroken
    from harness import Report, Undecided, Missing, Enough
    import registry
    fn, meta = registry.CHECKS[prop]
    R = Report(prop)
    t = time.time()
    wait = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 3400))

    def late():
        try:
            R.und("harness", f"the analysis was stopped after {wait:.0f} s; what was decided before stands")
            os_exit(verdict(prop, tier, R, meta, t))
        except Exception:
            traceback.print_exc()
            os_exit(2)
    timer = threading.Timer(wait, late)
    timer.daemon = True
    timer.start()
    try:
        fn(R, tier)
        import history
        history.run(R, prop, fn, tier, t + wait * 0.95)
        history.worlds(R, fn, tier)
    except Enough:
        R.und("harness", "stopped after many violations")
    except (Undecided, Missing, AnalysisBroken) as ex:
        R.und("harness", f"{type(ex).__name__}: {ex}")
    except Exception as ex:              # what was decided before it stands; the rest is undecided
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        R.und("harness", f"{type(ex).__name__}: {ex} ({os.path.basename(tb.filename)}:{tb.lineno})")
        if "-v" in sys.argv:
            traceback.print_exc()
    timer.cancel()
    return verdict(prop, tier, R, meta, t)


def os_exit(rc):
    sys.stdout.flush()
    os._exit(rc)


def verdict(prop, tier, R, meta, t):
    import registry
    wall = time.time() - t
    # -------------------------------------------------- verdict
    known = known_findings(prop)
    new, old = [], {}
    for v in R.violations:
        hit = [k for k in known if k["match"] in (v["obligation"] + "\n" + str(v["where"]) + "\n" + v["detail"])]
        if hit:
            old.setdefault(hit[0]["what"], []).append(v)
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k in known:
        if k["what"] in old:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    total = R.proved + len(R.violations) + len(R.undecided)
    funcs = sorted({f"{f}:{q}" for s, _ in R.sessions for f, q in s.I.calls})
    cov = dict(
        obligations=total, discharged=R.proved, undecided=len(R.undecided),
        undecided_list=[u[:300] for u in R.undecided[:40]],
        checker_cmd=f"python3 sa/check.py {prop}", trusted_base=meta.get("trusted", registry.TRUSTED),
        rule=meta["rule"], functions_analysed=funcs,
        calls_analysed=sum(s.I.ncalls for s, _ in R.sessions),
        files=sorted({f for s, _ in R.sessions for f in s.I.files}),
        samples=R.samples[:20], known_findings=[k for k in old], extra=getattr(R, "extra", {}))
    level = meta.get("level", "proof")
    if level != "proof":
        cov["explanation"] = meta["rule"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(wall, 3), violations=len(new))
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {R.proved} obligations hold, {len(R.violations)} violated ({len(new)} new), "
          f"{len(R.undecided)} undecided, {len(funcs)} functions, {wall:.1f}s")
    if "-v" in sys.argv:
        for u in R.undecided[:60]:
            print("  undecided:", u[:600])
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"obligation: {v['obligation']}\nat: {v['where']}\n{v['detail']}\n\n")
        for v in new[:12]:
            print(f"  {v['obligation']}\n    at {v['where']}\n    " + v["detail"][:900].replace("\n", "\n    "))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--selfcheck":              # setup: everything needed is there
        import registry
        print(f"{len(registry.CHECKS)} checks, python {sys.version.split()[0]}")
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    rc = [2]

    def body():
        try:
            rc[0] = run(prop, tier)
        except Exception as ex:
            traceback.print_exc()
            print(f"analysis failed: {type(ex).__name__}: {ex}")
            rc[0] = 2
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
