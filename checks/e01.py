"""Safety metrics: recorded runs made of scenes that spec/Safety.tla reads instant by instant"""
import json
import math
import os
from copy import deepcopy
from decimal import Decimal
from fractions import Fraction as F

from shapely.geometry import Polygon, box

from dg_commons import DgSampledSequence, PlayerName, fd
from dg_commons.eval.safety import get_min_dist, get_min_dist_at_t, get_min_ttc_max_drac, get_ttc_drac_at_t, has_collision
from dg_commons.sim import CollisionReport
from dg_commons.sim.goals import PolygonGoal
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianGeometry, PedestrianModel, PedestrianState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.simulator_structures import PlayerLog, SimLog
from vf.impact import Frame

DIRS = [(F(1), F(0)), (F(0), F(1)), (F(-1), F(0)), (F(0), F(-1)), (F(3, 5), F(4, 5)), (F(4, 5), F(-3, 5)), (F(-4, 5), F(3, 5)), (F(-3, 5), F(-4, 5))]
KINDS = ("car", "car", "bike", "truck", "pedestrian", "dyn")


def q(x):
    x = F(x)
    return [x.numerator, x.denominator]


def geometry(kind, rng):
    a, b, w = F(rng.randint(8, 15), 10), F(rng.randint(8, 15), 10), F(rng.randint(6, 10), 10)
    if kind in ("car", "dyn"):
        return VehicleGeometry.default_car(lf=float(a), lr=float(b), w_half=float(w)), [b + F(6, 10), a * F(3, 2), w + F(1, 10)]
    if kind == "bike":
        w = F(rng.randint(2, 4), 10)
        return VehicleGeometry.default_bicycle(lf=float(a), lr=float(b), w_half=float(w)), [b + F(6, 10), a + F(3, 10), w + F(1, 20)]
    a, b = rng.choice([2, 2, 7]) * a, rng.choice([2, 2, 7]) * b
    return VehicleGeometry.default_truck(lf=float(a), lr=float(b), w_half=float(w)), [b + F(8, 10), a * F(3, 2), w + F(2, 10)]


class BoxPedestrian(PedestrianGeometry):
    """a pedestrian in a box: the outline is replaced by one the specification can describe exactly"""


class TimedGoal(PolygonGoal):
    """a goal that counts only for some time, as those on moving platforms do"""

    def is_fulfilled(self, state, at=0):
        return self.__dict__["opens"] <= at <= self.__dict__["closes"] and super().is_fulfilled(state, at)

    is_static = False


class Body:
    def __init__(self, rng):
        self.kind = rng.choice(KINDS)
        if self.kind == "pedestrian":
            self.model = PedestrianModel.default(PedestrianState(x=0, y=0, psi=0, vx=0))
            self.box = [F(rng.randint(2, 5), 10), F(rng.randint(2, 5), 10), F(rng.randint(2, 5), 10)]
            b, f, w = (float(x) for x in self.box)
            self.model.pg = BoxPedestrian(m=75, Iz=50, e=0.35, color="pink")
            self.model.pg.__dict__["outline"] = ((-b, -w), (f, -w), (f, w), (-b, w), (-b, -w))
        else:
            vg, self.box = geometry(self.kind, rng)
            if self.kind == "dyn":
                self.model = VehicleModelDyn.default_car(VehicleStateDyn(x=0, y=0, psi=0, vx=0, delta=0))
            else:
                self.model = VehicleModel.default_car(VehicleState(x=0, y=0, psi=0, vx=0, delta=0))
            self.model.vg = vg
        self.model = deepcopy(self.model)

    def state(self, fr, s, turns):
        p = fr.pt((s[0], s[1]))
        psi = fr.th + math.atan2(s[3], s[2]) + 2 * math.pi * turns
        kw = dict(x=float(p[0]), y=float(p[1]), psi=psi, vx=float(s[4]))
        if self.kind == "pedestrian":
            return PedestrianState(**kw)
        return VehicleStateDyn(**kw, delta=0.1) if self.kind == "dyn" else VehicleState(**kw, delta=0.1)

    def command(self):
        return PedestrianCommands(acc=0, dpsi=0) if self.kind == "pedestrian" else VehicleCommands(acc=0, ddelta=0)


def scene(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    bodies = [Body(rng) for _ in range(n)]
    m = rng.choice([1, 2, 3, 3, 4])
    ts = sorted(rng.sample(range(0, 40), m))
    tenth = lambda a, b: F(rng.randint(10 * a, 10 * b), 10)
    ego = [tenth(-3, 3), tenth(-3, 3), *rng.choice(DIRS), F(rng.choice([0, 2, 4, 8, 10, -3]))]
    st = [ego]
    for _ in range(n - 1):
        c, s = rng.choice(DIRS)
        v = F(rng.choice([0, 1, 3, 6, 10, -2]))
        # meets the ego after some time, more or less
        t = rng.choice([F(0), F(1, 2), F(1), F(2), F(4), F(7)])
        st.append([ego[0] + (ego[2] * ego[4] - c * v) * t + tenth(-6, 6), ego[1] + (ego[3] * ego[4] - s * v) * t + tenth(-6, 6), c, s, v])
    if n > 1 and rng.random() < 0.2:  # head on, to touch at about the end of the time looked ahead
        v, gap = F(rng.choice([2, 5, 8])), bodies[0].box[1] + bodies[1].box[1]
        far = gap + (ego[4] + v) * rng.choice([F(285, 100), F(295, 100), F(305, 100), F(5, 100), F(15, 100)])
        st[1] = [ego[0] + ego[2] * far, ego[1] + ego[3] * far, -ego[2], -ego[3], v]
    log = []
    for k, t in enumerate(ts):
        if k:
            for p in st:
                dt = F(t - ts[k - 1], 10)
                p[0] += p[2] * p[4] * dt
                p[1] += p[3] * p[4] * dt
                if rng.random() < 0.3:
                    p[2], p[3] = rng.choice(DIRS)
                if rng.random() < 0.5:
                    p[4] = F(rng.choice([0, 2, 5, 9, -4]))
        log.append((t, [list(p) for p in st]))
    goal = []
    for p in range(n):
        if rng.random() < 0.35:
            s = rng.choice(log)[1][p]
            x0, y0 = s[0] - tenth(0, 3) - F(1, 20), s[1] - tenth(0, 3) - F(1, 20)
            goal.append([x0, x0 + tenth(1, 6), y0, y0 + tenth(1, 6)])
        else:
            goal.append([])
    opens = [rng.choice([[0, 99], sorted([rng.randint(0, 45), rng.choice(ts)])]) for _ in range(n)]
    cut = lambda: rng.choice([-1, -1, rng.choice(ts), rng.randint(0, 45)])
    return dict(bodies=bodies, log=log, goal=goal, open=opens, lo=cut(), hi=cut())


def dump(sc):
    return dict(bodies=[[q(x) for x in b.box] for b in sc["bodies"]], goal=[[q(x) for x in g] for g in sc["goal"]], open=sc["open"], **{"from": sc["lo"], "to": sc["hi"]},
                log=[dict(t=t, s=[dict(x=q(s[0]), y=q(s[1]), c=q(s[2]), s=q(s[3]), v=q(s[4])) for s in ss]) for t, ss in sc["log"]])


def run(chk):
    rng = chk.rng
    scenes = []
    while len(scenes) < (180 if chk.quick else 3000):
        sc = scene(rng)
        if all(abs(s[0]) < 60 and abs(s[1]) < 60 for _, ss in sc["log"] for s in ss):
            scenes.append(sc)
    inp = os.path.join(chk.scratch, "scenes.json")
    json.dump([dump(s) for s in scenes], open(inp, "w"))
    res = chk.emit("Safety", workers=8, env=dict(IN=inp), invariants=["Smallest", "Missing", "Soonest", "Largest", "Symmetric", "NoGap", "Emit"], timeout=850)
    assert len(res) == len(scenes), (len(res), len(scenes))
    for o in sorted(res, key=lambda o: o["i"]):
        judge(chk, rng, scenes[o["i"] - 1], o["best"])
    chk.sample(dump(scenes[0]))


def rr(x):
    return x[0] / x[1]


def judge(chk, rng, sc, best):
    fr = Frame(rng)
    chk.traces += 1
    n = len(sc["bodies"])
    names = [PlayerName(x) for x in ["Ego" if rng.random() < 0.5 else "Me", "A", "B", "C"][:n]]
    kind = rng.choice([float, lambda x: Decimal(x) / 10, None])
    when = (lambda t: t / 10) if kind in (float, None) else (lambda t: Decimal(t) / 10)
    turns = {p: rng.choice([0, 0, 1, -1]) for p in range(n)}
    order = list(range(n))
    rng.shuffle(order)
    ts = [when(t) for t, _ in sc["log"]]
    log = SimLog()
    for p in order:
        b = sc["bodies"][p]
        st = [b.state(fr, ss[p], turns[p]) for _, ss in sc["log"]]
        log[names[p]] = PlayerLog(states=DgSampledSequence[type(st[0])](ts, st), commands=DgSampledSequence[object](ts, [b.command()] * len(ts)),
                                  extra=DgSampledSequence[object](ts, [None] * len(ts)), info=DgSampledSequence[float](ts, [0.1] * len(ts)))
    models = {names[p]: sc["bodies"][p].model for p in range(n)}

    def mission(p, g):
        poly = Polygon([fr.pt((g[a], g[b])) for a, b in ((0, 2), (1, 2), (1, 3), (0, 3))])
        if sc["open"][p] == [0, 99]:
            return PolygonGoal(poly)
        m = TimedGoal(poly)
        m.__dict__.update(opens=when(sc["open"][p][0]), closes=when(sc["open"][p][1]))
        return m

    missions = fd({names[p]: mission(p, g) for p, g in enumerate(sc["goal"]) if g})
    keep = deepcopy((dict(log), {k: m.__dict__ for k, m in models.items()}))
    info = f"scene {dump(sc)} players {names}"
    who = lambda ps: {names[p - 1] for p in ps}
    M = best["m"]

    def bad(cl, what):
        chk.violation(f"E01.{cl}", f"{what}; {info}", dump(sc))

    def dist_ok(got, m):
        return math.isinf(got) and got > 0 if not m["d2"] else abs(got - math.sqrt(rr(m["d2"][0]))) < 1e-6

    def ttc_ok(got, m):
        return math.isinf(got) and got > 0 if m["ttc"] == 99 else abs(got - m["ttc"] / 10) < 1e-6

    def drac_ok(got, m):
        return dict(none=got == -math.inf, inf=got == math.inf, num=abs(got - rr(m["dr"])) < 1e-6)[m["drac"]]

    for t, m in zip(ts, M):
        chk.evals += 1
        d, a = get_min_dist_at_t(log, models, missions, t, names[0])
        if not dist_ok(d, m) or (a is None) != (not m["dwho"]) or (a is not None and a not in who(m["dwho"])):
            bad("distance", f"distance {d} to {a} at {t}, expected {m}")
        if m["unclear"]:
            chk.count("unclear")
            continue
        tt, ta, g, ga = get_ttc_drac_at_t(log, models, missions, t, names[0])
        if not ttc_ok(tt, m) or (ta is None) != (not m["twho"]) or (ta is not None and ta not in who(m["twho"])):
            bad("ttc", f"time to collision {tt} with {ta} at {t}, expected {m}")
        if not drac_ok(g, m) or (ga is None) != (not m["gwho"]) or (ga is not None and ga not in who(m["gwho"])):
            bad("drac", f"braking {g} for {ga} at {t}, expected {m}")
        chk.count(f"ttc {'none' if m['ttc'] == 99 else 'some'}")
        chk.count(f"drac {m['drac']}")
    lo, hi = (None if x < 0 else when(x) for x in (sc["lo"], sc["hi"]))
    args = [log, models, missions, names[0]]
    if lo is not None or hi is not None or rng.random() < 0.5:
        args.append((lo, hi))
    inside = [k for k in range(len(ts)) if (lo is None or ts[k] >= lo) and (hi is None or ts[k] <= hi)]

    def at(k, got_t, same):
        """the instant reported is one at which the best value occurs (the first, up to rounding)"""
        return got_t is None if k == 0 else got_t in [ts[j] for j in inside if same(M[j])]

    d, a, t = get_min_dist(*args)
    k = best["d"]
    if k == 0:
        if not (math.isinf(d) and a is None and t is None):
            bad("smallest-distance", f"{d, a, t}, expected nothing")
    elif not dist_ok(d, M[k - 1]) or not at(k, t, lambda m: m["d2"] == M[k - 1]["d2"]) or a not in who(M[ts.index(t)]["dwho"]):
        bad("smallest-distance", f"{d, a, t}, expected that of instant {k}: {M[k - 1]}")
    if any(M[j]["unclear"] for j in inside):
        return
    tt, ta, t1, g, ga, t2 = get_min_ttc_max_drac(*args)
    k = best["t"]
    if k == 0:
        if not (math.isinf(tt) and ta is None and t1 is None):
            bad("smallest-ttc", f"{tt, ta, t1}, expected nothing")
    elif not ttc_ok(tt, M[k - 1]) or t1 != ts[k - 1] or ta not in who(M[k - 1]["twho"]):
        bad("smallest-ttc", f"{tt, ta, t1}, expected that of instant {k}: {M[k - 1]}")
    k = best["g"]
    if k == 0:
        if not (g == -math.inf and ga is None and t2 is None):
            bad("largest-drac", f"{g, ga, t2}, expected nothing")
    elif not drac_ok(g, M[k - 1]) or not at(k, t2, lambda m: (m["drac"], m["dr"]) == (M[k - 1]["drac"], M[k - 1]["dr"])) or ga not in who(M[ts.index(t2)]["gwho"]):
        bad("largest-drac", f"{g, ga, t2}, expected that of instant {k}: {M[k - 1]}")
    if (dict(log), {k: m.__dict__ for k, m in models.items()}) != keep:
        bad("operands", "log or models changed")
