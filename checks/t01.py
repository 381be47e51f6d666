"""Trajectory operations: every case of spec/TrajMC.tla"""
import math
from dataclasses import replace
from decimal import Decimal

import numpy as np

from dg_commons import SE2Transform
from dg_commons.planning.trajectory import Trajectory, commands_plan_from_trajectory
from dg_commons.sim.models.vehicle import VehicleState
from vf.impact import Frame
from zuper_commons.types import ZValueError

REFUSED = (AssertionError, ZValueError, ValueError)


def run(chk):
    rng = chk.rng
    cases = chk.emit("TrajMC", constants=dict(Size=1 if chk.quick else 2), workers=8, invariants=["MergeKeeps", "UpKeeps", "PlanLeads", "Emit"])
    cases.sort(key=repr)
    for c in cases:
        dec = rng.random() < 0.5
        unit, off = (Decimal("0.1"), Decimal("1.5")) if dec else (0.25, -2.0)
        tm = lambda t: off + t * unit
        psi0, v0 = rng.uniform(-1, 1), rng.choice([0.0, -0.25, 12.0])  # also reversing, also fast

        def vs(x, y, v, s):
            return VehicleState(x=x, y=y, psi=psi0 + 0.125 * x, vx=v0 + v / 4, delta=s / 4)

        def mk(a):
            return Trajectory(timestamps=[tm(p["t"]) for p in a], values=[vs(p["x"], p["y"], p["v"], p["s"]) for p in a])

        def bad(cl, what):
            chk.violation(f"T01.{cl}", f"{what}; a={c['a']} b={c['b']} n={c['n']} ({'decimal' if dec else 'float'} instants)", c)

        a, b = mk(c["a"]), mk(c["b"])
        chk.traces += 1
        for name, f, exp in (("merge", Trajectory.merge, c["merge"]), ("chain", Trajectory.merge_unsafe, c["chain"])):
            if name == "chain" and (not c["b"]):
                continue
            chk.evals += 1
            try:
                got = f(a, b)
            except REFUSED:
                got = None
            if (got is None) != (not exp):
                bad(name, "refused" if got is None else f"accepted: {got}")
            elif got is not None and (got != mk(exp[0]) or not isinstance(got, Trajectory)):
                bad(name, f"got {got}")
        if c["a"] and c["b"]:
            # how exactly speed and steering have to agree
            tol = rng.choice([None, 1e-3, 0.05, 1e-6])
            gap = [(rng.choice([0.0, 0.2, -0.2, 0.6, -0.6, 0.8, -0.8, 1.2, -1.2, 1.7, -1.7])) * (tol or 1e-3) for _ in "vs"]
            end, first = a.values[-1], b.values[0]
            near = Trajectory(timestamps=b.timestamps, values=[replace(b.values[0], vx=end.vx + gap[0], delta=end.delta + gap[1]), *b.values[1:]])
            got = a.is_connectable(near) if tol is None else a.is_connectable(near, tol=tol)
            chk.evals += 1
            if bool(got) != all(abs(g) < (tol or 1e-3) for g in gap):
                bad("connectable", f"{end} and {near.values[0]} connectable: {got} (tolerance {tol})")
        if c["a"]:
            u = a.upsample(c["n"])
            ok = len(u.timestamps) == len(c["up"])
            for t, s, e in zip(u.timestamps, u.values, c["up"]):
                q = [x[0] / x[1] for x in e]
                w = vs(q[1], q[2], q[3], q[4])
                ok = ok and math.isclose(float(t), float(off) + q[0] * float(unit), abs_tol=1e-9) and np.allclose(s.as_ndarray(), w.as_ndarray(), atol=1e-9)
            if not ok:
                bad("upsample", f"got {u}")
            if len(c["a"]) > 1:
                p = commands_plan_from_trajectory(a)
                exp = [(float(tm(t)), qa[0] / qa[1] / 4 / float(unit), qs[0] / qs[1] / 4 / float(unit)) for t, qa, qs in c["plan"]]
                got = [(float(t), k.acc, k.ddelta) for t, k in p]
                if len(got) != len(exp) or not np.allclose(got, exp, atol=1e-9):
                    bad("plan", f"got {got} expected {exp}")
            # rigid motions
            fr = Frame(rng)
            m = a.apply_SE2transform(SE2Transform(fr.t, fr.th))
            for t, s, t0, s0 in zip(m.timestamps, m.values, a.timestamps, a.values):
                w = fr.pt((s0.x, s0.y))
                dpsi = math.remainder(s.psi - s0.psi - fr.th, 2 * math.pi)
                if t != t0 or not np.allclose((s.x, s.y), w, atol=1e-9) or abs(dpsi) > 1e-9 or (s.vx, s.delta) != (s0.vx, s0.delta):
                    bad("transform", f"moved by {fr.t} {fr.th}: {s0} -> {s}")
            if len(m.timestamps) != len(a.timestamps):
                bad("transform", "samples lost")
            path = a.as_path()
            if [(q.p[0], q.p[1], q.theta) for q in path] != [(s.x, s.y, s.psi) for s in a.values]:
                bad("path", f"path {path}")
        if a != mk(c["a"]) or b != mk(c["b"]):
            bad("operands", "operands changed")
    chk.sample(dict(kind="merge", case=cases[-1]))
