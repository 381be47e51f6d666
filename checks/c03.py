"""Attribution of fault: spec/FaultMC.tla on a commonroad network; plus collisions without a map and with the environment."""
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.scenario import Scenario

from vf import impact
from vf.impact import *

LANES = [((1, -9, 81, 7), (1, 0)), ((1, 7, 81, 23), (-1, 0)), ((33, -41, 49, 55), (0, 1)), ((33, -41, 49, 7), (0, -1)), ((41, -9, 81, 7), (-1, 0))]
HEADS = [(3, 4), (-3, 4), (4, -3), (-5, -12), (12, -5)]


def scenario(fr, rng):
    ls = []
    ids = rng.sample(range(1, 60), len(LANES))
    for k, (b, d) in enumerate(LANES):
        c = {(1, 0): [(b[0], b[3]), (b[2], b[3]), (b[0], b[1]), (b[2], b[1])], (-1, 0): [(b[2], b[1]), (b[0], b[1]), (b[2], b[3]), (b[0], b[3])],
             (0, 1): [(b[0], b[1]), (b[0], b[3]), (b[2], b[1]), (b[2], b[3])], (0, -1): [(b[2], b[3]), (b[2], b[1]), (b[0], b[3]), (b[0], b[1])]}[d]
        m = rng.randint(2, 4)
        w = np.linspace(0, 1, m)[:, None]
        P = [fr.R @ (np.array(q) / 4) + fr.t for q in c]
        left, right = P[0] * (1 - w) + P[1] * w, P[2] * (1 - w) + P[3] * w
        ls.append(Lanelet(left_vertices=left, center_vertices=(left + right) / 2, right_vertices=right, lanelet_id=ids[k]))
    s = Scenario(dt=0.1)
    rng.shuffle(ls)
    s.add_objects(LaneletNetwork.create_from_lanelet_list(ls))
    return DgScenario(scenario=s)


def run(chk):
    rng = chk.rng
    cases = chk.emit("FaultMC", constants=dict(Step=2 if chk.quick else 1), invariants=["Laws", "Emit"], workers=8)
    cases.sort(key=repr)
    rng.shuffle(cases)
    fr = scen = None
    for n, c in enumerate(cases[: 1200 if chk.quick else 12000]):
        if n % 40 == 0:
            fr = Frame(rng)
            scen = scenario(fr, rng)
        x = c["x"]
        ms = []
        for p, h, s in ((x["pa"], x["ha"], 1), (c["pb"], x["hb"], -1)):
            pos = fr.R @ (np.array(p) / 4) + fr.t
            hd = HEADS[h - 1]
            psi = math.atan2(hd[1], hd[0]) + fr.th
            shape = affine_transform(box(-2, -2, 2, 2), [cos(fr.th - psi), -sin(fr.th - psi), sin(fr.th - psi), cos(fr.th - psi), 0, 0])
            m = DynObstacleModel(DynObstacleState(x=pos[0], y=pos[1], psi=psi, vx=0.0, vy=0.0, dpsi=0.0), shape, ObstacleGeometry(m=1.0, Iz=1.0, e=0.5),
                                 DynObstacleParameters(vx_limits=(-100, 100), acc_limits=(-10, 10)))
            m.set_velocity(fr.vec(x["dd"]) * s * 0.1, 0.0, in_model_frame=False)
            ms.append(m)
        na, nb = PlayerName("P1"), PlayerName("P2")
        order = [(na, ms[0]), (nb, ms[1])]
        if rng.random() < 0.5:
            order.reverse()
        ctx = SimContext(dg_scenario=scen, models=dict(order), players={p: world.ReactiveAgent(ms[0], 1) for p, _ in order},
                         param=SimParameters(dt=Decimal("0.1"), dt_commands=Decimal("0.1"), max_sim_time=Decimal(1), sim_time_after_collision=Decimal(1)))
        rep = resolve_collision(order[0][0], order[1][0], ctx)
        chk.traces += 1
        chk.count(f"lanes at the impact: {c['n']}")
        if rep is None or not np.allclose(rep.impact_point.coords[0][:2], fr.R @ (np.array(c["mid"]) / 4) + fr.t, atol=1e-6):
            chk.violation("C03.impact", f"impact {rep} of {c}", c)
            continue
        got = (bool(rep.players[na].at_fault), bool(rep.players[nb].at_fault))
        if got != (c["fa"], c["fb"]):
            chk.violation("C03.fault", f"at fault {got} expected {(c['fa'], c['fb'])} in {c}", c)
    chk.sample(dict(kind="collision on a road map", case=cases[0]))
    impact.record(chk, 150 if chk.quick else 2000)
