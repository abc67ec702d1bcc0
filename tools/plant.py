"""Plant bugs: python3 tools/plant.py DEFS.py [id ...]

DEFS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (python source; must exit nonzero with the change), needs, what_it_breaks.
Each is tried in a scratch copy of /repo: the text must occur exactly once, the
package must import, the stable tests must pass, and the demo must pass without
and fail with the change.  Only then is seeded/<id>/ written.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/sh
# exit 0 if the behaviour is right, nonzero if not; run from the repository root
d=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)
w=$(mktemp -d) || exit 2
r=$(pwd)
cd "$w" || exit 2
env PYTHONPATH="$r" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 \\
  MPLCONFIGDIR="$w" /opt/venv/bin/python "$d/demo.py" >/dev/null 2>"$w/err"
rc=$?
[ $rc -eq 0 ] || tail -3 "$w/err" >&2
cd / && rm -rf "$w"
exit $rc
"""


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
             PYTHONPATH=cwd)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout, text=True)


def tests(repo):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests",
            "-x"], repo)
    return r.returncode == 0, r.stdout[-600:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant.")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            d = os.path.join(tmp, b["id"])
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            r0 = sh(["sh", os.path.join(d, "demo.sh")], repo)
            if r0.returncode != 0:
                print(b["id"], "REJECT demo fails unchanged:", r0.stdout)
                continue
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(repo, "dorado", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "REJECT text occurs", s.count(old), "times:", old[:60])
                    bad = True
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE,
                                  text=True).stdout
            ok, out = tests(repo)
            subprocess.run(["git", "clean", "-fdxq"], cwd=repo)
            if not ok:
                print(b["id"], "REJECT tests fail:", out[-300:])
                continue
            r1 = sh(["sh", os.path.join(d, "demo.sh")], repo)
            if r1.returncode == 0:
                print(b["id"], "REJECT demo passes with the change")
                continue
            dst = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["what_it_breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
            print(b["id"], "KEPT;", r1.stdout.strip().split("\n")[-1][:150])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
