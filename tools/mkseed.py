"""python3 tools/mkseed.py SPECFILE [ID ...]: make seeded/<id>/ from a spec, keeping only changes that pass the
repository's tests and whose demonstration passes without and fails with the change.
SPECFILE defines SEEDS: id -> dict(property, edits=[(file, old, new[, occurrence])], demo (python), needs, breaks)"""
import json, os, re, runpy, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
PY = "/opt/venv/bin/python"
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
DEMO = """#!/bin/bash
# run with cwd /repo: 0 if the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -B "$d/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def blame(path, line):
    o = sh(f"git -C /repo blame -s -l -L{line},{line} -- {path}").stdout
    return o.split()[0].lstrip("^")


def one(sid, s):
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for ed in s["edits"]:
        f, old, new = ed[:3]
        n = ed[3] if len(ed) > 3 else 1
        p = os.path.join(W, "pyorb", f)
        t = open(p).read()
        parts = t.split(old)
        if len(parts) <= n:
            return f"text not found: {old!r}"
        open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
    patch = sh("git diff", cwd=W).stdout
    # removed lines must be original
    cur, ln, bad = None, 0, []
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = blame(cur, ln)
            if not BASE.startswith(b):
                bad.append(l)
            ln += 1
        elif l.startswith(" "):
            ln += 1
    if bad:
        return f"changes lines of mine: {bad}"
    env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    chk = sh(f"{PY} -B -c 'import pyorb; print(pyorb.__file__)'", cwd=W, env=env).stdout
    assert W in chk, chk
    r = sh(f"{PY} -B -m pytest -q --no-cov -p no:cacheprovider -x", cwd=W, env=env)
    if r.returncode:
        return "tests fail: " + " ".join(re.findall(r"FAILED (\S+)", r.stdout))
    out = os.path.join(ROOT, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    a = sh(f"bash {out}/demo.sh", cwd="/repo")
    b = sh(f"bash {out}/demo.sh", cwd=W)
    if a.returncode != 0 or b.returncode == 0:
        shutil.rmtree(out)
        return f"demo: unchanged {a.returncode} {a.stdout[-300:]}{a.stderr[-300:]}, changed {b.returncode} {b.stdout[-200:]}"
    return "ok: " + (b.stdout + b.stderr).strip().splitlines()[-1][:150]


if __name__ == "__main__":
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    for sid, s in specs.items():
        if len(sys.argv) < 3 or sid in sys.argv[2:]:
            print(sid, one(sid, s), flush=True)
    shutil.rmtree(W, ignore_errors=True)
