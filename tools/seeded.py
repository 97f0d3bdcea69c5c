#!/usr/bin/env python3
"""seeded.py [--all] [id ...]   run the checks on scratch copies of /repo with each planted bug applied
(default: only the check of the bug's own property)"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ALL = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
PROPS = [f"C{i:02d}" for i in range(1, 26)]
base = f"/tmp/seeded.{os.getpid()}"


def one(job):
    repo, ver, p = job
    env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "sa/check.py", p], cwd=ver, env=env, capture_output=True, text=True)
    m = re.search(r"(\d+) undecided, \d+ functions, ([\d.]+)s", r.stdout)
    return p, r.returncode, m.group(1) if m else "?", m.group(2) if m else "?", r.stdout


jobs = []
for d in sorted(glob.glob("/verif/seeded/*")):
    n = os.path.basename(d)
    if ids and not any(n.startswith(i) for i in ids):
        continue
    prop = json.load(open(d + "/meta.json"))["property"]
    b = f"{base}/{n}"
    shutil.copytree("/repo", b + "/repo", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree("/verif/sa", b + "/verif/sa", ignore=shutil.ignore_patterns("__pycache__"))
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=b + "/repo", check=True)
    jobs.append((n, prop, [(b + "/repo", b + "/verif", p) for p in (PROPS if ALL else [prop])]))
with ThreadPoolExecutor(8) as ex:
    fut = [(n, prop, [ex.submit(one, j) for j in js]) for n, prop, js in jobs]
    for n, prop, fs in fut:
        rs = [f.result() for f in fs]
        own = [r for r in rs if r[0] == prop][0]
        print(f"{'CAUGHT' if own[1] == 1 else 'MISSED'} {n} {prop} rc={own[1]} undecided={own[2]} {own[3]}s | also "
              f"{' '.join(r[0] for r in rs if r[1] == 1 and r[0] != prop) or '-'}", flush=True)
        for l in own[4].splitlines()[1:4]:
            print("      ", l[:200])
shutil.rmtree(base, ignore_errors=True)
