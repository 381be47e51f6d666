"""bindtest.py ID [N]: is a recorded trace tied to the specification?

Runs the check ID on the current tree; for every batch of traces validated, N copies of accepted traces are altered in one recorded
value each (a number, a flag, a name) and validated again.  Prints, per kind of field, how many alterations were rejected.  A field never
rejected is one the specification does not constrain (or an input that other inputs make irrelevant)."""
import collections, copy, importlib, json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core

PID, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 80
rng = random.Random(7)
stat = collections.defaultdict(lambda: [0, 0])
orig = core.Check.validate
crash = 0


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def norm(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)


def alter(v, others):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1]) * max(1, abs(v) // 8)
    if isinstance(v, str):
        c = [o for o in others if isinstance(o, str) and o != v]
        return rng.choice(c) if c else v + "x"
    return None


def validate(self, module, traces, constants=None, chunk=None, label=None, workers=4, timeout=600):
    global crash
    bad = orig(self, module, traces, constants, chunk, label, workers, timeout)
    good = [t for i, t in enumerate(traces) if i not in bad]
    if not good:
        return bad
    kinds = collections.defaultdict(list)
    for k, t in enumerate(good):
        for p, v in leaves(t):
            if v is not None:
                kinds[norm(p)].append((k, p, v))
    muts = []
    names = list(kinds)
    for j in range(N):
        nm = names[j % len(names)] if N >= len(names) else rng.choice(names)
        k, p, v = rng.choice(kinds[nm])
        nv = alter(v, [o for _, _, o in kinds[nm]])
        t = copy.deepcopy(good[k])
        x = t
        for q in p[:-1]:
            x = x[q]
        x[p[-1]] = nv
        muts.append((module + ":" + nm, t))

    def go(ms):
        global crash
        try:
            b = orig(self, module, [t for _, t in ms], constants, chunk, label, workers, timeout)
            for i, (nm, _) in enumerate(ms):
                stat[nm][0 if i in b else 1] += 1
        except core.MachineryError:
            if len(ms) == 1:
                crash += 1
                stat[ms[0][0]][0] += 1
                return
            h = len(ms) // 2
            go(ms[:h]); go(ms[h:])
    for i in range(0, len(muts), 40):
        go(muts[i:i + 40])
    return bad


core.Check.validate = validate
from vf import run as vrun  # noqa
vrun.quiet()
mod = importlib.import_module("checks." + PID.lower())
chk = core.Check(PID, "quick", int(os.environ.get("VERIF_SEED", "1")))
mod.run(chk)
r = sum(a for a, _ in stat.values()); n = sum(a + b for a, b in stat.values())
print(f"{PID}: {r} of {n} alterations rejected ({crash} by stopping TLC); violations {len(chk.violations)}")
for nm, (a, b) in sorted(stat.items(), key=lambda kv: kv[1][0] / max(1, sum(kv[1]))):
    print(f"   {a:3d}/{a + b:3d} {nm}")
import shutil
shutil.rmtree(chk.scratch, ignore_errors=True)
