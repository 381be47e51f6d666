"""Lookups in sampled sequences: all short sequences (spec/SeqMC.tla) and long random ones (spec/SeqTrace.tla)."""
from vf.seqlib import *

UNDEF = -999


def run(chk):
    cases, _ = ops_cases(chk)
    for c in cases:
        x = c["x"]
        clk, val = Clock(chk.rng), Val(chk.rng)
        s = realise(x, clk, val)

        def bad(cl, what):
            chk.violation("Q01." + cl, f"{what} on {x} ({clk.kind}, {val.kind})", dict(case=c, clock=clk.kind, val=val.kind))

        for q, at, prev, itp in c["at"]:
            if clk.kind == "int" and q[1] != 1:
                t = clk.off + fr(q) * clk.unit
            else:
                t = clk.query(fr(q))
            for name, exp, f in (("exact", at, s.at), ("at-or-previous", prev, s.at_or_previous)):
                chk.evals += 1
                try:
                    got = val.num(f(t))
                except UndefinedAtTime:
                    got = UNDEF
                except ZValueError:
                    if x["ts"]:
                        raise
                    got = UNDEF
                if got != exp:
                    bad(name, f"lookup at {q}: got {got} expected {exp}")
            if x["ts"]:
                got = val.num(s.at_interp(t))
                if not same(got, fr(itp)):
                    bad("interpolation", f"interpolation at {q}: got {got} expected {itp}")
        if x["ts"]:
            if s.get_start() != clk(x["ts"][0]) or s.get_end() != clk(x["ts"][-1]):
                bad("bounds", f"start/end {s.get_start()} {s.get_end()}")
        else:
            for f in (s.get_start, s.get_end):
                try:
                    bad("bounds", f"empty sequence has a bound {f()}")
                except ZValueError:
                    pass
        chk.traces += 1
    chk.sample(dict(kind="sequence with expected lookups", case=cases[-1]["x"], lookups=cases[-1]["at"]))
    traces(chk, ["at", "prev", "interp"], "Q01")
