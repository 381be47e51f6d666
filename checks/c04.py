"""Combining collision reports: spec/CombineMC.tla"""
from copy import deepcopy
from decimal import Decimal
from functools import reduce

import numpy as np
from shapely.geometry import Point, box
from zuper_commons.types import ZValueError

from dg_commons import PlayerName
from dg_commons.sim.collision_structures import *


def real(rep, mk, names):
    pl = {}
    for p in (0, 1):
        e = rep["pl"][p]
        pl[names[p]] = None if e["none"] else CollisionReportPlayer(
            locations=[(IMPACT_FRONT if l % 2 else IMPACT_BACK, box(l, l, l + 1, l + 1)) for l in e["loc"]], at_fault=e["fault"],
            footprint=box(0, 0, 1, 1 + e["before"]), velocity=(np.array([e["before"], 1.0]), 0.5 * e["before"]),
            velocity_after=(np.array([e["after"], 2.0]), 0.5 * e["after"]), energy_delta=e["de"] * 0.25)
    c = rep["contact"]
    if not c:
        return CollisionReport.get_empty(pl, mk(rep["at"]))
    return CollisionReport(players=pl, impact_point=Point(c, -c), impact_normal=np.array([c, 0.5]), at_time=mk(rep["at"]))


def read(r, names, back):
    def one(e):
        if e is None:
            return None
        b = e.velocity[0][0]
        ok = e.velocity[1] == 0.5 * b and e.velocity_after[1] == 0.5 * e.velocity_after[0][0] and e.footprint.equals(box(0, 0, 1, 1 + b))
        loc = [int(s.bounds[0]) for _, s in e.locations]
        ok = ok and all(n == (IMPACT_FRONT if l % 2 else IMPACT_BACK) for l, (n, _) in zip(loc, e.locations))
        return dict(loc=loc, before=int(b), after=int(e.velocity_after[0][0]), de=e.energy_delta * 4, fault=bool(e.at_fault), ok=bool(ok))
    c = 0 if r.impact_point is None else int(r.impact_point.x)
    nrm = 0 if r.impact_normal is None else int(r.impact_normal[0])
    return dict(at=back(r.at_time), contact=c, normal=nrm, pl=[one(r.players[n]) for n in names], names=sorted(r.players))


def want_of(rep, names):
    return dict(at=rep["at"], contact=rep["contact"], normal=rep["contact"], names=sorted(names),
                pl=[None if e["none"] else dict(loc=e["loc"], before=e["before"], after=e["after"], de=e["de"], fault=e["fault"], ok=True) for e in rep["pl"]])


def run(chk):
    cases = chk.emit("CombineMC", constants=dict(Ts="{1, 2, 3}", MaxLen=3 if chk.quick else 4),
                     invariants=["Associative", "Accident", "Commutes", "Emit"], workers=6)
    cases.sort(key=repr)
    for c in cases:
        names = [PlayerName(n) for n in chk.rng.choice([("A", "B"), ("Z", "Env"), ("P2", "P1")])]
        u = Decimal(chk.rng.choice(["0.1", "1", "0.05", "0.01", "0.002"]))
        mk, back = lambda t: t * u, lambda t: int(t / u)
        reps = [real(r, mk, names) for r in c["reports"]]
        keep = [read(r, names, back) for r in reps]
        chk.traces += 1
        for name, f in (("left", lambda: reduce(combine_collision_reports, reps)),
                        ("right", lambda: reduce(lambda a, b: combine_collision_reports(b, a), reversed(reps)))):
            if len(reps) == 1:
                continue
            chk.evals += 1
            got, exp = read(f(), names, back), want_of(c[name], names)
            if got != exp:
                diff = [k for k in exp if got[k] != exp[k]]
                chk.violation("C04.sum", f"reports {c['x']} combined from the {name}: {[(k, got[k], exp[k]) for k in diff]}", c)
        if [read(r, names, back) for r in reps] != keep:
            chk.violation("C04.inputs", f"combining changed the reports that were combined: {c['x']}", c)
        # other parties
        other = real(c["reports"][0], mk, [names[0], PlayerName("other")])
        try:
            combine_collision_reports(reps[0], other)
            chk.violation("C04.parties", f"reports of different parties were combined: {c['x']}", c)
        except ZValueError:
            pass
    chk.sample(dict(kind="accident", case=cases[-1]["x"], expected=cases[-1]["left"]))
