"""Construction, builder, immutability and derived sequences."""
import copy
import math
from collections import deque
from vf.seqlib import *


def raises(f, exc=Exception):
    try:
        f()
    except exc:
        return True
    return False


def run(chk):
    rng = chk.rng
    k = dict(MaxT=3, MaxLen=4)
    raw = chk.emit("SeqMC", constants=dict(Family='"raw"', MaxOps=0, **k), invariants=["Emit"], label="SeqMC/raw")
    raw.sort(key=repr)
    for c in raw:
        ts, n, ok = c["x"]["ts"], c["x"]["n"], c["ok"]
        clk = Clock(rng)
        mk = lambda: DgSampledSequence[float]([clk(t) for t in ts], [float(i) for i in range(n)])
        if raises(mk, ZValueError) == ok:
            chk.violation("Q02.construction", f"timestamps {ts} ({clk.kind}) with {n} values: should be {'accepted' if ok else 'rejected'}", c)
        # the same after and before many samples in good order
        if rng.random() < 0.2:
            m, m2 = rng.choice([40, 60, 300]), rng.choice([0, 50])
            many = [clk(t) for t in [*range(-m, 0), *ts, *range(50, 50 + m2)]]
            if raises(lambda: DgSampledSequence[float](many, [float(i) for i in range(m + n + m2)]), ZValueError) == ok:
                chk.violation("Q02.construction", f"timestamps {ts} ({clk.kind}) with {n} values after {m} more and before {m2}: should be {'accepted' if ok else 'rejected'}", c)
        chk.traces += 1
        # mixed or foreign timestamp types are refused even when increasing
        if ok and n >= 2:
            j = rng.randrange(n)
            for other, base in ((Decimal, float), (float, Decimal), (Decimal, int)):
                if raises(lambda: DgSampledSequence[float]([other(t) if i == j else base(t) for i, t in enumerate(ts)], list(range(n)))) is False:
                    chk.violation("Q02.mixed-types", f"{base}/{other} mixture accepted: {ts} at {j}", c)
            if not raises(lambda: DgSampledSequence[float]([str(t) for t in ts], list(range(n))), Exception):
                chk.violation("Q02.mixed-types", f"strings accepted as timestamps {ts}", c)
            if raises(lambda: DgSampledSequence[float]([int(t) if i == j else float(t) for i, t in enumerate(ts)], list(range(n)))):
                chk.violation("Q02.mixed-types", f"int/float mixture refused {ts}", c)
    chk.sample(dict(kind="constructor arguments", case=raw[7]))

    hists = chk.emit("SeqMC", constants=dict(Family='"build"', MaxT=3, MaxLen=0, MaxOps=5 if chk.quick else 6),
                     invariants=["ThBuild", "Emit"], label="SeqMC/build")
    hists.sort(key=repr)
    for h in hists:
        clk, val = Clock(rng), Val(rng, ["int", "obj"])
        b = DgSampledSequenceBuilder[float]()
        snaps = []
        for e in h:
            if e["op"] == "add":
                r = raises(lambda: b.add(clk(e["t"]), val(e["v"])), ZValueError)
                if r == e["ok"]:
                    chk.violation("Q02.builder", f"addition at {e['t']} of {h}: {'accepted' if not r else 'rejected'}", h)
                    break
            else:
                snaps.append((b.as_sequence(), e["after"]))
            if len(b) != len(e["after"]["ts"]):
                chk.violation("Q02.builder", f"length {len(b)} after {e} of {h}", h)
        snaps.append((b.as_sequence(), h[-1]["after"]))
        for s, exp in snaps:
            if (list(s.timestamps), [val.num(v) for v in s.values]) != ([clk(t) for t in exp["ts"]], exp["vs"]):
                chk.violation("Q02.snapshot", f"snapshot {list(s)} expected {exp} in {h}", h)
        chk.traces += 1
    chk.sample(dict(kind="builder history", case=hists[-1]))

    cases, k = ops_cases(chk)
    for c in cases:
        x = c["x"]
        clk, val = Clock(rng), Val(rng, Val.KINDS + ["obj"])
        ts, vs = [clk(t) for t in x["ts"]], [val(v) for v in x["vs"]]
        s = DgSampledSequence[float](timestamps=ts, values=vs)
        show = lambda q: (list(q.timestamps), [val.num(v) for v in q.values])
        orig = ([clk(t) for t in x["ts"]], x["vs"])

        def bad(cl, what):
            chk.violation("Q02." + cl, f"{what} on {x} ({clk.kind}, {val.kind})", dict(case=c, clock=clk.kind))

        for a in range(k["MaxT"] + 1):
            for d in range(k["MaxT"] + 1):
                if a > d:
                    continue
                half = rng.random() < 0.3 and clk.kind != "int"
                # bounds strictly between the samples select the same samples as the integer bounds they enclose
                lo, hi = (clk(a - 0.5), clk(d + 0.5)) if half else (clk(a), clk(d))
                r = s.get_subsequence(lo, hi)
                e = c["sub"][a][d]
                chk.evals += 1
                if show(r) != ([clk(t) for t in e["ts"]], e["vs"]):
                    bad("subsequence", f"[{lo},{hi}]: {show(r)} expected {e}")
        for d in (-2, 1, 3):
            u = clk(1) - clk(0)
            r = s.shift_timestamps(d * u)
            if len(r) != len(s) or [val.num(v) for v in r.values] != x["vs"] or any(abs(t1 - t0 - d * u) > type(u)(1) * abs(u) / 1000 for t0, t1 in zip(s.timestamps, r.timestamps)):
                bad("shift", f"by {d}: {show(r)}")
        keep = {v for v in x["vs"] if rng.random() < 0.6}
        r = s.transform_values(lambda v: (val.num(v), "x") if val.num(v) in keep else None, tuple)
        e = [(clk(t), (v, "x")) for t, v in zip(x["ts"], x["vs"]) if v in keep]
        if [(t, v) for t, v in r] != e:
            bad("transform", f"keeping {keep}: {list(r)} expected {e}")
        # only None leaves a sample out: nothing, zero and emptiness are values too
        for f, z in ((lambda v: float(val.num(v) - x["vs"][0]), float), (lambda v: [], list), (lambda v: val.num(v) in keep, bool), (lambda v: "", str)):
            r = s.transform_values(f, z)
            if [(t, v) for t, v in r] != [(t, f(v)) for t, v in zip(orig[0], vs)]:
                bad("transform", f"{list(r)} expected {[f(v) for v in vs]}")
        r = s.transform_values(lambda v: math.nan if val.num(v) in keep else 1.0, float)
        if [(t, v if v == v else None) for t, v in r] != [(t, None if w in keep else 1.0) for t, w in zip(orig[0], x["vs"])]:
            bad("transform", f"not-a-number is a value too: {list(r)}")
        # a sequence is a value: nothing done with the inputs or with derived sequences changes it
        if ts:
            ts[0], vs[-1] = ts[0] - 1, None
            ts.append(ts[-1] + 1), vs.append(val(7))
        if show(s) != orig or [t for t, _ in s] != orig[0] or len(s) != len(orig[0]):
            bad("immutable", f"after its inputs changed: {show(s)}")
        if list(s.get_sampling_points()) != orig[0]:
            bad("immutable", "sampling points")
        for f in ("timestamps", "values"):
            if not raises(lambda: setattr(s, f, ())) or show(s) != orig:
                bad("immutable", f"{f} can be assigned")
        if val.kind in ("int", "float", "obj", "state"):
            o = realise(x, clk, val)
            if not (o == s and hash(o) == hash(s)):
                bad("equality", "equal content but different sequence or hash")
            # whatever kind of sequence the samples were given in
            for box in (tuple, deque):
                o = DgSampledSequence[float](box(s.timestamps), box(s.values))
                if not (o == s and s == o and hash(o) == hash(s)) or show(o) != orig:
                    bad("equality", f"given as {box}: {show(o)}")
            if val.kind == "int" and orig[0]:
                r = range(3, 3 + len(orig[0]))
                o, w = DgSampledSequence[float](orig[0], r), DgSampledSequence[float](orig[0], list(r))
                if not (o == w and hash(o) == hash(w)):
                    bad("equality", f"values given as {r}")
            if x["ts"]:
                y = dict(ts=x["ts"], vs=x["vs"][:-1] + [x["vs"][-1] + 1])
                z = dict(ts=x["ts"][:-1] + [x["ts"][-1] + 1], vs=x["vs"])
                for w in (y, z):
                    if realise(w, clk, val) == s:
                        bad("equality", f"equal to {w}")
        chk.traces += 1
    traces(chk, ["sub", "shift"], "Q02")
