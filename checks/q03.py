"""Calculus on sampled sequences."""
from vf.seqlib import *
from dg_commons.seq.seq_op import seq_accumulate, seq_differentiate, seq_integrate, find_crossings


def run(chk):
    rng = chk.rng
    cases, _ = ops_cases(chk)
    for c in cases:
        x = c["x"]
        clk, val = Clock(rng), Val(rng, ["int", "float"])
        s = realise(x, clk, val)
        T = lambda q: clk.off + fr(q) * clk.unit
        u = clk.unit
        tol = 1e-6 if clk.kind != "huge" else 1e-5

        def bad(cl, what):
            chk.violation("Q03." + cl, f"{what} on {x} ({clk.kind}, {val.kind})", dict(case=c, clock=clk.kind))

        def pairs(seq):
            return list(zip(map(float, seq.timestamps), seq.values))

        def cmp(cl, got, exp):
            chk.evals += 1
            if len(got) != len(exp) or any(abs(a[0] - b[0]) > tol or not math.isclose(a[1], b[1], rel_tol=1e-5, abs_tol=1e-6) for a, b in zip(got, exp)):
                bad(cl, f"got {got} expected {exp}")

        if not x["ts"]:
            for f in (seq_differentiate, seq_integrate):
                try:
                    f(s)
                    bad("empty", f"{f} of the empty sequence")
                except ValueError:
                    pass
        else:
            cmp("derivative", pairs(seq_differentiate(s)), [(T(t), fr(v) / u) for t, v in c["diff"]])
            if len(x["ts"]) > 1:
                cmp("integral", pairs(seq_integrate(s)), [(T(t), fr(v) * u) for t, v in c["integ"]])
        cmp("accumulate", pairs(seq_accumulate(s)), [(float(clk(t)), v) for t, v in zip(c["accum"]["ts"], c["accum"]["vs"])])
        it = list(iterate_with_dt(s))
        if len(it) != len(c["pairs"]):
            bad("pairs", f"{len(it)} pairs")
        for g, e in zip(it, c["pairs"]):
            if not (same(g.t0, clk(e["t0"])) and same(g.t1, clk(e["t1"])) and same(g.dt, e["dt"] * u, 1e-6) and g.v0 == e["v0"] and g.v1 == e["v1"]):
                bad("pairs", f"{g} expected {e}")
        if clk.kind in ("int", "float", "dyadic", "huge"):
            for i, hts in enumerate(c["cross"]):
                got = find_crossings(s, i - 1)
                exp = [T(q) for q in hts]
                if len(got) != len(exp) or any(abs(a - b) > tol for a, b in zip(got, exp)):
                    bad("crossings", f"threshold {i - 1}: {got} expected {exp}")
                sg = rng.choice([1e-9, 1e5])  # quantities of any size
                got = find_crossings(DgSampledSequence(s.timestamps, [v * sg for v in s.values]), (i - 1) * sg)
                if len(got) != len(exp) or any(abs(a - b) > tol for a, b in zip(got, exp)):
                    bad("crossings", f"values and threshold {i - 1} times {sg}: {got} expected {exp}")
        chk.traces += 1
    chk.sample(dict(kind="sequence with expected calculus", case={k: cases[-1][k] for k in ("x", "diff", "integ", "accum", "cross")}))
    traces(chk, ["accum", "diff", "integ", "pairs"], "Q03")
