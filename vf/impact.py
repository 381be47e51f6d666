"""Impacts of real bodies: replay of the cases of spec/ImpactMC.tla and traces for spec/ImpactTrace.tla"""
import math
from copy import deepcopy
from decimal import Decimal
from math import cos, pi, sin

import numpy as np
from shapely.affinity import affine_transform
from shapely.geometry import LineString, Point, Polygon, box

from dg_commons import PlayerName
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel, DynObstacleState
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
from dg_commons.sim.models.diff_drive import DiffDriveModel
from dg_commons.sim import SimParameters
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from vf.geo import same_shape
from vf import world
from vf.modelcases import fx, r


class Frame:
    """canonical frame -> world"""

    def __init__(self, rng):
        self.th = rng.choice([0.0, pi / 2, pi, rng.uniform(-pi, pi), rng.uniform(-pi, pi)])
        self.t = np.array([rng.uniform(-50, 50), rng.uniform(-50, 50)]) if rng.random() < 0.8 else np.zeros(2)
        self.R = np.array([[cos(self.th), -sin(self.th)], [sin(self.th), cos(self.th)]])

    def pt(self, p):
        return self.R @ np.array([float(p[0]), float(p[1])]) + self.t

    def vec(self, v):
        return self.R @ np.array([float(v[0]), float(v[1])])


def cbox(b):
    return np.array([(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3])], float)


def body(b, fr, rng, mu, sg=1.0):
    """a free body: rectangle of the case in the world frame, own heading arbitrary"""
    psi = rng.uniform(-pi, pi)
    c = fr.pt(b["c"])
    Rb = np.array([[cos(psi), -sin(psi)], [sin(psi), cos(psi)]])
    corners = [fr.pt(p) for p in cbox(b["box"])]
    k = rng.randrange(4)
    corners = corners[k:] + corners[:k]
    if rng.random() < 0.5:
        corners.reverse()
    shape = Polygon([tuple(Rb.T @ (p - c)) for p in corners])
    v = Rb.T @ fr.vec(b["v"]) * sg
    st = DynObstacleState(x=c[0], y=c[1], psi=psi, vx=v[0], vy=v[1], dpsi=float(b["w"]) * sg)
    return DynObstacleModel(st, shape, ObstacleGeometry(m=b["m"] * mu, Iz=b["iz"] * mu, e=r(b["e"])),
                            DynObstacleParameters(vx_limits=(-100, 100), acc_limits=(-10, 10)))


def close(a, b, tol=1e-7):
    return np.allclose(np.array(a, float), np.array(b, float), rtol=1e-7, atol=tol)


def replay(chk, pid, limit=None):
    rng = chk.rng
    cases = chk.emit("ImpactMC", constants=dict(Level=1 if chk.quick else 2), invariants=["Laws", "Emit"], workers=8)
    cases.sort(key=repr)
    if limit:
        rng.shuffle(cases)
        cases = cases[:limit]
    for case in cases:
        ex = case["r"]
        if ex["vn"][0] == 0 and not (ex["ct"]["kind"] == "x"):
            chk.count("grazing (either outcome allowed)")
            continue
        chk.traces += 1
        chk.count(f"{ex['ct']['kind']}/{'closing' if ex['closing'] else 'separating'}/{'env' if case['b']['inv'] else 'bodies'}")
        one(chk, pid, case, rng)
    chk.sample(dict(kind="impact with exact outcome", case=cases[7]))


def one(chk, pid, case, rng):
    ex, A, B, env = case["r"], case["a"], case["b"], case["b"]["inv"]
    # mass and speed have no scale: all energies grow with both
    fr, mu, sg = Frame(rng), rng.choice([1.0, 7.0, 300.0]), rng.choice([1.0, 1.0, 0.005, 4.0])
    a = body(A, fr, rng, mu, sg)
    t = Decimal(rng.choice(["0.1", "1.25", "0"]))
    na, nb = PlayerName(rng.choice(["A", "Z"])), PlayerName("M")
    if env:
        obs = StaticObstacle(Polygon([tuple(fr.pt(p)) for p in cbox(B["box"])]), ObstacleGeometry.default_static(e=r(B["e"])))
        before = (a.get_velocity(False), deepcopy(a._state))
        call = lambda: resolve_collision_with_environment(na, a, obs, t)
        b = None
    else:
        b = body(B, fr, rng, mu, sg)
        ags = {p: world.ReactiveAgent(m, 1) for p, m in ((na, a), (nb, b))}
        ctx = SimContext(dg_scenario=DgScenario(), models={na: a, nb: b}, players=ags, time=t,
                         param=SimParameters(dt=Decimal("0.1"), dt_commands=Decimal("0.1"), max_sim_time=Decimal(1), sim_time_after_collision=Decimal(1)))
        swap = rng.random() < 0.4 and ex["ct"]["kind"] != "inside"
        call = lambda: resolve_collision(nb, na, ctx) if swap else resolve_collision(na, nb, ctx)
    fpa, fpb = a.get_footprint(), (b.get_footprint() if b else obs.shape)
    states = [deepcopy(m.get_state()) for m in (a, b) if m]
    what = f"{'environment' if env else 'two bodies'} {case} in frame {fr.th:.3f} {fr.t}, speeds times {sg}"

    def want(p, cl, ok, msg):
        chk.evals += 1
        if not ok and p == pid:
            chk.violation(f"{pid}.{cl}", f"{msg}; {what}", case)

    try:
        rep = call()
    except CollisionException as e:
        want("C01", "unresolved", False, f"exception {e}")
        return
    if not ex["closing"]:
        want("C01", "separating", rep is None, "separating bodies exchanged an impulse")
        want("C01", "separating", [m.get_state() for m in (a, b) if m] == states and not a.has_collided and not (b and b.has_collided),
             "separating bodies were changed")
        return
    if rep is None:
        want("C01", "closing", False, "closing bodies not resolved")
        return
    bodies = [(na, a, A, ex["va"], ex["wa"], ex["ea"])] + ([] if env else [(nb, b, B, ex["vb"], ex["wb"], ex["eb"])])
    Env = next((p for p in rep.players if p != na), None) if env else nb
    want("C02", "players", set(map(str, rep.players)) == {str(na), "Env" if env else str(nb)}, f"players {list(rep.players)}")
    want("C02", "time", rep.at_time == t, f"time {rep.at_time}")
    want("C02", "impact-point", close(rep.impact_point.coords[0][:2], fr.pt([x / 2 for x in ex["ct"]["p2"]]), 1e-6), f"impact point {rep.impact_point}")
    n = fr.vec([r(q) for q in ex["n"]])
    s = -1 if (not env and swap) else 1
    want("C02", "normal", close(rep.impact_normal, s * n) or (not env and close(rep.impact_normal, -s * n) and False), f"normal {rep.impact_normal} expected {s * n}")
    for p, m, D, ve, we, en in bodies:
        v1, w1 = m.get_velocity(False)
        exp, wexp = fr.vec([r(q) for q in ve]) * sg, r(we) * sg
        want("C01", "velocity", close(v1, exp) and close(w1, wexp), f"{p}: velocity {v1}, {w1} after the impact, expected {exp}, {wexp}")
        st = m.get_state()
        want("C01", "pose", (st.x, st.y, st.psi) == (states[0 if p == na else 1].x, states[0 if p == na else 1].y, states[0 if p == na else 1].psi), f"{p}: pose changed")
        want("C01", "marked", m.has_collided, f"{p}: not marked as collided")
        want("C05", "marked", m.has_collided, f"{p}: not marked as collided")
        pr = rep.players.get(p)
        if pr is None:
            want("C02", "players", False, f"no report for {p}")
            continue
        want("C02", "velocity-before", close(pr.velocity[0], fr.vec(D["v"]) * sg) and close(pr.velocity[1], D["w"] * sg), f"{p}: velocity before {pr.velocity}")
        want("C02", "velocity-after", close(pr.velocity_after[0], exp) and close(pr.velocity_after[1], wexp), f"{p}: velocity after {pr.velocity_after}")
        e = r(en[0]) * r(en[1]) * mu * sg**2
        want("C02", "energy", math.isclose(pr.energy_delta, e, rel_tol=1e-6, abs_tol=1e-6 * mu * sg**2), f"{p}: energy {pr.energy_delta} expected {e}")
        fp = fpa if p == na else fpb
        want("C02", "footprint", same_shape(pr.footprint, fp), f"{p}: footprint")
        want("C02", "locations", len(pr.locations) == 1 and same_shape(pr.locations[0][1], fp), f"{p}: locations {pr.locations}")
        want("C02", "fault", pr.at_fault == env, f"{p}: at fault {pr.at_fault}")
    if env and Env is not None:
        pr = rep.players[Env]
        want("C02", "environment", not pr.at_fault and pr.energy_delta == 0 and close(pr.velocity[0], [0, 0]) and close(pr.velocity_after[0], [0, 0])
             and pr.velocity[1] == 0 and pr.velocity_after[1] == 0 and pr.footprint.equals(obs.shape) and len(pr.locations) == 1, f"report of the environment {pr}")
    # the report is a record: what happens to the bodies afterwards does not change it
    keep = [(tuple(map(float, q.velocity_after[0])), tuple(map(float, q.velocity[0]))) for q in rep.players.values()]
    for m in (a, b):
        if m:
            m.set_velocity(np.array([9.0, 9.0]), 9.0, in_model_frame=True)
            m._state.vx += 1
    want("C02", "record", keep == [(tuple(map(float, q.velocity_after[0])), tuple(map(float, q.velocity[0]))) for q in rep.players.values()], "report changed afterwards")


# --------------------------------------------------------------------------- traces
KINDS = [k for k in world.KINDS if k != "diffdrive"]


def random_pair(rng, movable=False):
    """two overlapping bodies, or a body and an obstacle"""
    k1, k2 = rng.choice(KINDS), rng.choice(KINDS + ["env", "env"])
    x, y = rng.uniform(-20, 20), rng.uniform(-20, 20)
    a = world.make_model(k1, rng, x, y, rng.uniform(-pi, pi), rng.choice([0.0, 2.0, 5.0]))
    th, d = rng.uniform(-pi, pi), rng.uniform(0.3, 6)
    q = (x + d * cos(th), y + d * sin(th))
    if k2 == "env":
        if rng.random() < 0.25:
            w = rng.uniform(-pi, pi)
            b = StaticObstacle(LineString([(q[0] - 9 * cos(w), q[1] - 9 * sin(w)), (q[0] + 9 * cos(w), q[1] + 9 * sin(w))]))
        else:
            b = StaticObstacle(world.random_polygon(rng, *q, rng.uniform(0.3, 3) if rng.random() < 0.6 else rng.uniform(0.02, 0.3)))
        if movable:  # light things standing around
            b = StaticObstacle(b.shape, ObstacleGeometry(m=rng.choice([1.0, 50.0, 5000.0]), Iz=rng.choice([1.0, 90.0]), e=0.5))
        shape = b.shape
    else:
        b = world.make_model(k2, rng, *q, th + pi + rng.uniform(-1, 1), rng.choice([0.0, 2.0, 5.0]))
        shape = b.get_footprint()
    fa = a.get_footprint()
    if not fa.intersects(shape) or fa.touches(shape) or shape.contains(fa):
        return None
    return k1, k2, a, b


def regions(m):
    """the named regions of a body: the quarters of a vehicle around its middle, everything else is one region"""
    fp, st = m.get_footprint(), m.get_state()
    if not isinstance(m, VehicleModel):
        return {"everywhere": fp}
    R = np.array([[cos(st.psi), -sin(st.psi)], [sin(st.psi), cos(st.psi)]])
    loc = (np.array(fp.exterior.coords[:-1]) - [st.x, st.y]) @ R
    mid = loc.mean(axis=0)
    (b, f), (rt, lf) = ((loc[:, k].min(), loc[:, k].max()) for k in (0, 1))
    sides = dict(front=[(f, lf), (f, rt)], back=[(b, lf), (b, rt)], left=[(b, lf), (f, lf)], right=[(b, rt), (f, rt)])
    return {n: Polygon([R @ p + [st.x, st.y] for p in [mid, *e]]) for n, e in sides.items()}


def big(x):
    return fx(max(-190.0, min(190.0, float(x))))


def record(chk, n):
    """traces for spec/ImpactTrace.tla"""
    rng, trs = chk.rng, []
    while len(trs) < n:
        pr = random_pair(rng, chk.pid == "C03" and rng.random() < 0.5)
        if pr is None:
            continue
        k1, k2, a, b = pr
        t = Decimal(rng.choice(["0.1", "2"]))
        env = k2 == "env"
        na, nb = PlayerName("P1"), PlayerName("P2")
        va, wa = deepcopy(a.get_velocity(False))
        fa = a.get_footprint()
        ga, ma = a.model_geometry, regions(a)
        if env:
            vb, wb, fb, gb, cb, mb = np.zeros(2), 0.0, b.shape, b.geometry, np.zeros(2), None
        else:
            vb, wb = deepcopy(b.get_velocity(False))
            fb, gb, cb, mb = b.get_footprint(), b.model_geometry, np.array([b.get_state().x, b.get_state().y]), regions(b)
            ctx = SimContext(dg_scenario=DgScenario(), models={na: a, nb: b}, players={p: world.ReactiveAgent(a, 1) for p in (na, nb)}, time=t,
                             param=SimParameters(dt=Decimal("0.1"), dt_commands=Decimal("0.1"), max_sim_time=Decimal(1), sim_time_after_collision=Decimal(1)))
        try:
            rep = resolve_collision_with_environment(na, a, b, t) if env else resolve_collision(na, nb, ctx)
        except CollisionException as e:
            if chk.pid == "C02" and fa.contains(fb) and math.dist(fa.centroid.coords[0], fb.centroid.coords[0]) > 1e-3:
                chk.violation("C02.unresolved", f"{k1} with {k2} inside: {e}; a={a.get_state()} b={b.shape.wkt if env else b.get_state()}", str(e))
            chk.count("contacts without a direction (not two crossings)")
            continue
        info = f"{k1} {k2} a={a.get_state()} b={'' if env else b.get_state()} v {va} {wa} {vb} {wb} report {rep}"
        if rep is None:
            trs.append([dict(op="none", same=bool(np.array_equal(va, a.get_velocity(False)[0]) and not a.has_collided), info=info)])
            chk.count("separating")
            continue
        ra = rep.players[na]
        rb = rep.players[next(p for p in rep.players if p != na)]
        ca = np.array([a.get_state().x, a.get_state().y])
        P = np.array(rep.impact_point.coords[0][:2])
        arm_a, arm_b = P - ca, (P - cb if not env else np.zeros(2))
        dva, dvb = np.array(ra.velocity_after[0]) - va, np.array(rb.velocity_after[0]) - vb
        dwa, dwb = ra.velocity_after[1] - wa, rb.velocity_after[1] - wb
        if max(map(abs, [*dva, *dvb, dwa, dwb, *va, *vb, *arm_a, *arm_b])) > 100:
            continue
        L = lambda f, mesh, o: sorted(str(l) for l, s in mesh.items() if s.intersects(o)) == sorted(str(l) for l, _ in f.locations) and all(same_shape(s, mesh[str(l)]) for l, s in f.locations)
        free = lambda m: not isinstance(m, (VehicleModel, DiffDriveModel)) or isinstance(m, VehicleModelDyn)

        def actual(m, v, w, va0, wa0):
            gv, gw = m.get_velocity(False)
            if free(m):
                return [*gv, gw], [*v, w]
            # a rolling vehicle keeps the component along its heading
            h = m.get_state().psi
            k = m.get_state().vx
            d = np.array([cos(h), sin(h)])
            return [k, 0, 0], [float(np.dot(v, d)), 0, 0]

        acts = [actual(a, *ra.velocity_after, va, wa)] + ([] if env else [actual(b, *rb.velocity_after, vb, wb)])
        heavy_a = env is False and ga.m >= gb.m
        e = dict(op="hit", env=env, heavyA=bool(heavy_a), ratio=0 if env else fx(min(ga.m, gb.m) / max(ga.m, gb.m)),
                 n=[fx(v) for v in rep.impact_normal], e=fx(min(ga.e, gb.e)), va=list(map(fx, va)), vb=list(map(fx, vb)), wa=fx(wa), wb=fx(wb),
                 va1=list(map(fx, ra.velocity_after[0])), vb1=list(map(fx, rb.velocity_after[0])), wa1=fx(ra.velocity_after[1]), wb1=fx(rb.velocity_after[1]),
                 ra=list(map(fx, arm_a)), rb=list(map(fx, arm_b)), ia=fx(ga.Iz / ga.m), ib=fx(0 if env else gb.Iz / gb.m),
                 ea=big(ra.energy_delta / ga.m), eb=0 if env else big(rb.energy_delta / gb.m),
                 before=[*map(fx, ra.velocity[0]), fx(ra.velocity[1])], beforeB=[*map(fx, rb.velocity[0]), fx(rb.velocity[1])],
                 act=[fx(v) for p in acts for v in p[0]], rep=[fx(v) for p in acts for v in p[1]],
                 marked=bool(a.has_collided and (env or b.has_collided)), time=rep.at_time == t,
                 locs=L(ra, ma, fb) and (env or L(rb, mb, fa)),
                 outward=bool(np.dot(rep.impact_normal, P - np.array(fa.centroid.coords[0])) >= -1e-9),
                 fps=bool(ra.footprint.equals(fa) and (env or rb.footprint.equals(fb))),
                 near=bool(fa.intersection(fb).envelope.buffer(1e-6).contains(Point(P)) or type(fa.intersection(fb)).__name__.startswith("Multi")
                           or type(fa.intersection(fb)).__name__ == "GeometryCollection"),
                 fault=bool((ra.at_fault, rb.at_fault) == (env, False)), info=info)
        trs.append([e])
        chk.count("impacts of real models")
    for i, bs in chk.validate("ImpactTrace", trs, chunk=500).items():
        for cl, pos in bs:
            if cl.startswith(chk.pid):
                chk.violation(cl, trs[i][0]["info"], trs[i])
    chk.sample(dict(kind="recorded impact", trace=trs[0]))
