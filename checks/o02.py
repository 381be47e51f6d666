"""Field of view filters: every case of spec/FovMC.tla"""
from copy import deepcopy
from decimal import Decimal
from math import pi

from shapely.geometry import Point, Polygon

from dg_commons import PlayerName, fd
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.sim import PlayerObservations, SimObservations
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import FovObsFilter, GhostObsFilter
from vf import env
from vf.impact import Frame, cbox


def run(chk):
    rng = chk.rng
    vis = env.install()
    if not vis:
        chk.notes.append("the occlusion filter cannot be exercised here (no polygon collision objects)")
    chk.assumptions.append("obstacles of the visibility filter are represented by triangles (the installed collision checker was built without polygons)")
    cases = chk.emit("FovMC", constants=dict(Size=2), workers=8, invariants=["Monotone", "NotMutual", "Emit"])
    cases.sort(key=repr)
    if not chk.quick:
        cases = cases * 5
    me, T, B = PlayerName("me"), PlayerName("T"), PlayerName("B")
    for c in cases:
        x, fr = c["x"], Frame(rng)
        o = fr.pt((0, 0))
        f = 20 / x["r"]
        poly = lambda b: Polygon([tuple(fr.pt((p[0] * f, p[1] * f))) for p in cbox(b)])
        obs = lambda p, b: PlayerObservations(state=VehicleState(*fr.pt((p[0] * f, p[1] * f)), fr.th + 1, 1, 0), occupancy=poly(b))
        mine = PlayerObservations(state=VehicleState(o[0], o[1], fr.th, 2, 0), occupancy=poly((-1, -0.5, 1, 0.5) if rng.random() < 0.8 else (-9, -3, 9, 3)))  # or large, leaning on others
        pl = {me: mine, T: obs(x["t"][:2], x["t"])}
        stat = []
        if x["static"]:
            shape = poly(x["b"])
            stat.append(StaticObstacle(shape if rng.random() < 0.6 else shape.exterior))
        else:
            pl[B] = obs(x["b"][:2], x["b"])
        far = rng.choice([0, 0, 12])  # a crowd, out of range
        for k in range(far):
            q = fr.pt((60 + 4 * k, 30 - 3 * k))
            pl[PlayerName(f"Z{k}")] = PlayerObservations(state=VehicleState(q[0], q[1], 0, 1, 0), occupancy=Point(q).buffer(1))
        items = list(pl.items())
        rng.shuffle(items)
        full = SimObservations(players=fd(dict(items)), time=Decimal("1.5"))
        keep = deepcopy(full)
        scen = DgScenario(static_obstacles=stat)
        fov = {4: 2 * pi, 3: 2 * pi - 0.24, 2: pi, 1: pi / 2}[x["fov"]]
        runs = []
        if vis:
            runs.append(("vis", VisRangeSensor(range=20, field_of_view=fov), c["d"]["t"], c["d"]["b"]))
        if x["fov"] == 4:
            runs.append(("full", FullRangeSensor(range=20), c["d"]["tf"], c["d"]["bf"]))
        for name, sensor, et, eb in runs:
            flt = FovObsFilter(sensor)
            if rng.random() < 0.05:  # the filter has been in use in another scenario, between walls
                walls = [StaticObstacle(Polygon([tuple(fr.pt((s * u, v))) for u, v in ((-9, 2), (9, 2), (9, 3), (-9, 3))])) for s in (1, -1)]
                flt.sense(DgScenario(static_obstacles=walls[: rng.randint(1, 2)]), SimObservations(players=fd({me: mine, T: mine}), time=Decimal(1)), me)
            if rng.random() < 0.4:  # the filter has been in use, elsewhere
                away = PlayerObservations(state=VehicleState(o[0] + 5, o[1] - 7, fr.th + 2, 2, 0), occupancy=Point(o[0] + 5, o[1] - 7).buffer(1))
                flt.sense(scen, SimObservations(players=fd({me: away, T: mine}), time=Decimal(1)), me)
            if rng.random() < 0.01:  # for long, with something right in front of it
                q = fr.pt((0, 3))
                for k in range(45):
                    wall = PlayerObservations(state=VehicleState(*q, 0, 1, 0), occupancy=Polygon([tuple(fr.pt(p)) for p in ((-9, 2), (9, 2), (9, 3), (-9, 3))]))
                    flt.sense(scen, SimObservations(players=fd({PlayerName(f"W{k % 3}"): wall, me: mine}), time=Decimal(k) / 50), me)
            out = flt.sense(scen, full, me)
            chk.evals += 1
            chk.count(f"{name}/{et}")
            info = f"{name} sensor, field of view {fov:.2f}, {c} in frame {fr.th:.2f} {fr.t}: sees {sorted(out.players)}"
            for p, e in ((T, et), (B, eb)):
                if p not in pl or e == "open":
                    continue
                if (e == "seen") != (p in out.players):
                    chk.violation(f"O02.{'lost' if e == 'seen' else 'through'}", f"{p} must be {e}; {info}", c)
            if any(p.startswith("Z") for p in out.players):
                chk.violation("O02.through", f"players out of range must be unseen; {info}", c)
            if me not in out.players or out.players[me].state != mine.state:
                chk.violation("O02.self", f"does not see itself; {info}", c)
            if out.time != full.time or any(out.players[p].state != full.players[p].state for p in out.players if p in full.players):
                chk.violation("O02.faithful", f"observation altered; {info}", c)
            if keep.players.keys() != full.players.keys() or any(keep.players[p].state != full.players[p].state for p in keep.players):
                chk.violation("O02.untouched", f"modified what it was given; {info}", c)
        chk.traces += 1
    chk.sample(dict(kind="view", case=cases[3]))
