#!/usr/bin/env python3
"""mutate.py FILE.mut [name ...]   apply each textual change to a scratch copy of /repo,
run the tests and all the checks on the copy, print what each check said.
A .mut file is python: MUT = [(name, file, old, new), ...] (several tuples with the same name are one change;
old = "all:text" replaces every occurrence, old = "def:Class.name" the whole definition, old = "new:" a new file)."""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PROPS = [f"C{i:02d}" for i in range(1, 26)]


def find(old):
    """the text, with any blank lines between its lines"""
    return re.compile("\\n(?:[ \\t]*\\n)*".join(re.escape(l) for l in re.sub(r"\n[ \t]*(?=\n)", "", old).split("\n")))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    props = [a for a in args if re.fullmatch(r"C\d\d", a)] or PROPS
    names = [a for a in args if not re.fullmatch(r"C\d\d", a)]
    todo = {}
    for n, f, o, w in ns["MUT"]:
        todo.setdefault(n, []).append((f, o, w))
    for n, edits in todo.items():
        if names and n not in names:
            continue
        base = f"/tmp/mut.{os.getpid()}"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        repo, ver = base + "/repo", base + "/verif"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(os.environ.get("VERIF_SRC", "/verif") + "/sa", ver + "/sa", ignore=shutil.ignore_patterns("__pycache__"))
        if os.path.exists("/verif/known_findings.txt"):
            shutil.copy("/verif/known_findings.txt", ver)
        bad = False
        for f, o, w in edits:
            p = os.path.join(repo, f)
            if o == "new:":                       # a new file
                open(p, "w").write(w)
                continue
            s = open(p).read()
            if o.startswith("all:"):              # every occurrence
                s, cnt = find(o[4:]).subn(lambda m: w, s)
                if cnt:
                    open(p, "w").write(s)
                    continue
            if o.startswith("def:"):              # the whole function or class
                import ast
                node = ast.parse(s)
                for part in o[4:].split("."):
                    node = next(c for c in node.body if getattr(c, "name", None) == part)
                lo = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
                lines = s.splitlines(True)
                open(p, "w").write("".join(lines[:lo]) + w + "".join(lines[node.end_lineno:]))
                continue
            if not find(o).search(s):
                print(f"{n}: text not found in {f}: {o[:60]!r}")
                bad = True
                break
            open(p, "w").write(find(o).sub(lambda m: w, s, count=1))
        if bad or "--dry" in sys.argv:
            continue
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", VERIF_BUDGET="200")
        with ThreadPoolExecutor(8) as ex:
            ft = ex.submit(subprocess.run, ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                                            "tests", "bip38/libs/ripemd160.py"], cwd=repo, capture_output=True,
                           text=True)
            fs = {p: ex.submit(subprocess.run, [sys.executable, "sa/check.py", p, "-v"], cwd=ver, env=env,
                               capture_output=True, text=True) for p in props}
            t = ft.result()
            res = {p: f.result() for p, f in fs.items()}
        fired = [p for p in props if res[p].returncode == 1]
        odd = [p for p in props if res[p].returncode not in (0, 1)]
        und = []
        for p in props:
            m = re.search(r"(\d+) undecided", res[p].stdout)
            if m and m.group(1) != "0":
                und.append(f"{p}({m.group(1)})")
        last = [l for l in t.stdout.splitlines() if l.strip()][-1] if t.stdout.strip() else "?"
        print(f"{n}: tests[{last.strip('= ')[:40]}] fired {' '.join(fired) or '-'} | undecided {' '.join(und) or '-'} | odd {odd}",
              flush=True)
        os.makedirs("/tmp/mutout", exist_ok=True)
        for p in props:
            open(f"/tmp/mutout/{n}.{p}.txt", "w").write(res[p].stdout + res[p].stderr)
        shutil.rmtree(base, ignore_errors=True)


main()
