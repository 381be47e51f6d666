"""Planted bugs: write /verif/seeded/<id> from a definition and confirm it in a scratch copy of /repo.
python3 tools/seedtool.py make DEFS.py [ids...]     definitions -> seeded/<id>/ (patch computed by string replacement)
python3 tools/seedtool.py confirm ID... [--tests]   demo passes clean / fails patched, stable tests pass, the property's check
"""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", DISABLE_CONTRACTS="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg DISABLE_CONTRACTS=1
export MPLCONFIGDIR=$(mktemp -d); trap 'rm -rf "$MPLCONFIGDIR"' EXIT
PYTHONPATH="$PWD/src" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="vfseed_", dir="/tmp")
    sh(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def make(defs, ids):
    ns = {}
    exec(open(defs).read(), ns)
    d, w = copy()
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        sh(["git", "-C", w, "checkout", "--", "."])
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "BAD EDIT", f, t.count(old), repr(old)[:100])
                break
            open(p, "w").write(t.replace(old, new))
        else:
            o = os.path.join(SEED, s["id"])
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
            open(o + "/demo.sh", "w").write(DEMO)
            os.chmod(o + "/demo.sh", 0o755)
            open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
            print("made", s["id"])
    shutil.rmtree(d)


def tests(w):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rep = os.path.join(os.path.dirname(w), "junit.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=300", "-n", "8", "--dist=loadfile",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={rep}", "src"], cwd=w,
       env=dict(ENV, PYTHONPATH=w + "/src"))
    out = os.path.join(os.path.dirname(w), "o.json")
    sh(["/opt/venv/bin/python", "/opt/vp/results.py", out, "junit:" + rep])
    return sorted(stable - set(json.load(open(out))["passed"]))


def confirm(ids, flags):
    for i in ids:
        o = os.path.join(SEED, i)
        meta = json.load(open(o + "/meta.json"))
        d, w = copy()
        c = sh(["bash", o + "/demo.sh"], cwd=w)
        a = sh(["git", "-C", w, "apply", o + "/patch.diff"])
        b = sh(["bash", o + "/demo.sh"], cwd=w)
        imp = sh(["/opt/venv/bin/python", "-W", "ignore", "-c", "import pkgutil,importlib,dg_commons\n"
                  "[importlib.import_module(m.name) for m in pkgutil.walk_packages(dg_commons.__path__,'dg_commons.')]"], cwd=w, env=dict(ENV, PYTHONPATH=w + "/src"))
        msg = f"{i}: apply {a.returncode} clean {c.returncode} patched {b.returncode} import {imp.returncode}"
        if c.returncode or not b.returncode:
            msg += "\n CLEAN " + c.stdout[-800:] + "\n PATCHED " + b.stdout[-500:]
        else:
            msg += " | " + (b.stdout.strip().splitlines() or [""])[-1][:150]
        if "--tests" in flags:
            msg += f"\n   stable tests broken: {tests(w)}"
        if "--no-check" not in flags:
            props = [f[8:] for f in flags if f.startswith("--props=")] or [meta["property"]]
            for p in ",".join(props).split(","):
                k = sh([V + "/check", p, "quick"], cwd=V, env=dict(os.environ, VF_REPO=w, VERIF_SEED="1"))
                msg += f"\n   check {p}: rc {k.returncode} " + " / ".join(l.strip()[:230] for l in k.stdout.splitlines() if "clause" in l or "ERROR" in l)[:700]
        print(msg, flush=True)
        shutil.rmtree(d)


if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    flags = [a for a in sys.argv[2:] if a.startswith("--")]
    if sys.argv[1] == "make":
        make(args[0], args[1:])
    else:
        confirm(args or sorted(os.listdir(SEED)), flags)
