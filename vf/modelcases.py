"""Realising the cases of spec/Models.tla and random states/commands on the implementation's motion models."""
import math
from math import atan, atan2, pi

import numpy as np
from shapely.geometry import box

from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.model_structures import BICYCLE, CAR, MOTORCYCLE, TRUCK
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianGeometry, PedestrianModel, PedestrianState
from dg_commons.sim.models.pedestrian_utils import PedestrianParameters
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry, SpacecraftParameters
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
from dg_commons.sim.models.tires import Pacejka, Pacejka4p
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ANG = [(1, 0), (0, 1), (-0.6, 0.8), (5 / 13, -12 / 13), (-1, 0)]
NZ = {k: math.copysign(atan2([0, 3, 4, 1][abs(k)], [1, 4, 3, 0][abs(k)]), k) for k in range(-3, 4)}


def r(q):
    return q[0] / q[1]


def psi_of(a):
    c, s = ANG[a - 1]
    return atan2(s, c)


def veh_geo(t=CAR, lf=1.0, lr=2.0, m=1300.0):
    return VehicleGeometry(vehicle_type=t, m=m, Iz=1600, w_half=0.8, lf=lf, lr=lr, c_drag=0.37, a_drag=2, e=0.5, color="red")


VEH_P = {1: VehicleParameters(vx_limits=(-2, 10), acc_limits=(-8, 5), delta_max=atan(3 / 4), ddelta_max=0.5),
         2: VehicleParameters(vx_limits=(0, 3.5), acc_limits=(-9, 3), delta_max=atan(1 / 2), ddelta_max=0.25)}
PED_P = {1: dict(vx_limits=(-1, 5), acc_limits=(-3, 4), dtheta_max=4.5), 2: dict(vx_limits=(0, 2), acc_limits=(-1, 6), dtheta_max=0.5)}
DIF_P = {1: ((0.5, 0.2), (-4, 5)), 2: ((0.75, 0.5), (0, 2))}
DYN_P = {1: dict(vx_limits=(-4, 6), acc_limits=(-3, 2), dpsi_limits=(-2, 1), ddpsi_limits=(-1, 1.5)),
         2: dict(vx_limits=(-5, 1), acc_limits=(-1, 4), dpsi_limits=(0, 0.5), ddpsi_limits=(-3, 0.25))}
CRA_P = {1: dict(vx_limits=(-1, 1), acc_limits=(-10, 8), dpsi_limits=(-2, 3)), 2: dict(vx_limits=(-1, 1), acc_limits=(0, 3), dpsi_limits=(0, 1))}
SHI_P = {1: (dict(Iz=2, l_r=3), dict(m_v=2.0, C_T=0.01, thrust_limits=(-2, 3), delta_limits=(NZ[-2], NZ[2]), ddelta_limits=(-0.5, 0.75))),
         2: (dict(Iz=3, l_r=2), dict(m_v=1.5, C_T=0.02, thrust_limits=(0, 1), delta_limits=(NZ[0], NZ[3]), ddelta_limits=(-1, 0.25)))}
ROC_P = {1: (dict(Iz=2, l_m=0.25), dict(m_v=2.0, C_T=0.01, F_limits=(0, 3), delta_limits=(NZ[-2], NZ[2]), ddelta_limits=(-1 / 3, 0.25))),
         2: (dict(Iz=3, l_m=0.5), dict(m_v=1.5, C_T=0.02, F_limits=(-1, 4), delta_limits=(NZ[-3], NZ[1]), ddelta_limits=(-0.5, 1)))}


def realise(k, i, x=0.0, y=0.0, turns=0, low_dyn=False, vt=CAR, pset=1):
    """model, state, command, fields of the state to compare (in the order of the expected derivative)"""
    psi = psi_of(i["a"]) + 2 * pi * turns
    p = dict(x=x, y=y, psi=psi)
    if k == "veh":
        if low_dyn:
            s = VehicleStateDyn(**p, vx=r(i["vx"]), delta=atan(r(i["tau"])), vy=0.0, dpsi=0.0)
            m = VehicleModelDyn(s, veh_geo(vt), VEH_P[pset], Pacejka4p.default_car_front(), Pacejka4p.default_car_rear())
        else:
            s = VehicleState(**p, vx=r(i["vx"]), delta=atan(r(i["tau"])))
            m = VehicleModel(s, veh_geo(vt), VEH_P[pset])
        return m, s, VehicleCommands(acc=r(i["acc"]), ddelta=r(i["dd"])), "x y psi vx delta"
    if k == "ped":
        s = PedestrianState(**p, vx=r(i["vx"]), vy=r(i["vy"]), dpsi=0.3)
        m = PedestrianModel(s, PedestrianGeometry.default(), PedestrianParameters(**PED_P[pset]))
        return m, s, PedestrianCommands(acc=r(i["acc"]), dpsi=r(i["w"])), "x y psi vx vy dpsi"
    if k == "dif":
        s = DiffDriveState(**p)
        (wb, wr), lim = DIF_P[pset]
        m = DiffDriveModel(s, DiffDriveGeometry.default(wheelbase=wb, wheelradius=wr), DiffDriveParameters.default(omega_limits=lim))
        return m, s, DiffDriveCommands(omega_l=r(i["l"]), omega_r=r(i["r"])), "x y psi"
    if k == "dyn":
        s = DynObstacleState(**p, vx=r(i["vx"]), vy=r(i["vy"]), dpsi=r(i["w"]))
        m = DynObstacleModel(s, box(-1, -1, 1, 1), ObstacleGeometry(m=5, Iz=5, e=0.5),
                             DynObstacleParameters(**DYN_P[pset]))
        return m, s, DynObstacleCommands(acc_x=r(i["ax"]), acc_y=r(i["ay"]), acc_psi=r(i["g"])), "x y psi vx vy dpsi"
    if k == "cra":
        s = SpacecraftState(**p, vx=r(i["vx"]), vy=r(i["vy"]), dpsi=r(i["w"]))
        m = SpacecraftModel(s, SpacecraftGeometry.default(w_half=3, m=50, Iz=100, lf=2, lr=3),
                            SpacecraftParameters(**CRA_P[pset]))
        return m, s, SpacecraftCommands(acc_left=r(i["l"]), acc_right=r(i["r"])), "x y psi vx vy dpsi"
    if k == "shi":
        s = SpaceshipState(**p, vx=r(i["vx"]), vy=r(i["vy"]), dpsi=r(i["w"]), delta=NZ[i["n"]], m=r(i["m"]))
        m = SpaceshipModel(s, SpaceshipGeometry.default(**SHI_P[pset][0]), SpaceshipParameters.default(**SHI_P[pset][1]))
        return m, s, SpaceshipCommands(thrust=r(i["f"]), ddelta=r(i["d"])), "x y psi vx vy dpsi delta m"
    if k == "roc":
        s = RocketState(**p, vx=r(i["vx"]), vy=r(i["vy"]), dpsi=r(i["w"]), phi=NZ[i["n"]], m=r(i["m"]))
        m = RocketModel(s, RocketGeometry.default(**ROC_P[pset][0]), RocketParameters.default(**ROC_P[pset][1]))
        return m, s, RocketCommands(F_left=r(i["l"]), F_right=r(i["r"]), dphi=r(i["d"])), "x y psi vx vy dpsi phi m"
    raise ValueError(k)


KINDS = ("veh", "ped", "dif", "dyn", "cra", "shi", "roc")


def grid(chk):
    """every case of every model, with its expected derivative"""
    from concurrent.futures import ThreadPoolExecutor

    def run(kp):
        k, p = kp
        cs = chk.emit("ModelsMC", constants=dict(Kind=f'"{k}"', PSet=p), invariants=["FrameFree", "Limited", "Emit"], workers=3, label=f"ModelsMC/{k}{p}")
        cs.sort(key=repr)
        return k, cs

    with ThreadPoolExecutor(3) as ex:
        yield from ex.map(run, [(k, p) for k in KINDS for p in (1, 2)])


def replay_grid(chk, free, clause):
    rng = chk.rng
    for k, cs in grid(chk):
        for c in cs:
            if c["free"] is not free:
                continue
            variants = [dict()]
            if k == "veh":
                variants[0]["vt"] = rng.choice([CAR, TRUCK, BICYCLE])
                if r(c["i"]["vx"]) <= 0:
                    variants.append(dict(low_dyn=True, vt=rng.choice([CAR, TRUCK, BICYCLE])))
            for v in variants:
                m, s, u, fields = realise(k, c["i"], x=rng.uniform(-50, 50), y=rng.uniform(-50, 50), turns=rng.choice([0, 0, 1, -3]), pset=c["p"], **v)
                d = m.dynamics(s, u)
                chk.evals += 1
                got = [float(getattr(d, f)) for f in fields.split()]
                exp = [r(q) for q in c["d"]]
                if any(not math.isclose(g, e, rel_tol=1e-9, abs_tol=1e-8) for g, e in zip(got, exp)):
                    w = {f: (g, e) for f, g, e in zip(fields.split(), got, exp) if not math.isclose(g, e, rel_tol=1e-9, abs_tol=1e-8)}
                    chk.violation(clause, f"{type(m).__name__} {v.get('vt', '')} state {s} command {u}: derivative (got, expected) {w}", c)
        chk.traces += sum(c["free"] is free for c in cs)
        chk.sample(dict(kind="model case", case=cs[0]), limit=4)


def tyre(slip, k, grip, rng):
    """a tyre that uses share k of its grip at this slip (of the sign of the slip)"""
    z = abs(atan(r(slip)))
    kind = rng.choice(["plain", "flat", "curved"])
    C = {1: 1, 2: 2, 3: 2}[k]  # sin(C atan(t)) = 3/5, 24/25, 1
    t = {1: 3 / 4, 2: 3 / 4, 3: 1}[k]
    if not z:
        return Pacejka4p(B=rng.uniform(5, 12), C=1.5, D=r(grip), E=0.97)
    if kind == "plain":
        return Pacejka(B=t / z, C=C, D=r(grip))
    if kind == "flat":
        return Pacejka4p(B=t / z, C=C, D=r(grip), E=0.0)
    b = rng.uniform(1.1, 3) * t  # b - E (b - atan b) = t
    return Pacejka4p(B=b / z, C=C, D=r(grip), E=(b - t) / (b - atan(b)))


def replay_tyres(chk, free, clause):
    """spec/TyreMC.tla: single-track vehicles with tyres chosen such that they use a known share of their grip"""
    rng = chk.rng
    for p in (1, 2):
        cs = chk.emit("TyreMC", constants=dict(PSet=p), invariants=["Mirrored", "PushBack", "Straight", "Emit"], workers=8, label=f"TyreMC/{p}")
        cs.sort(key=repr)
        for c in cs:
            if c["free"] is not free:
                continue
            i = c["i"]
            chk.traces += 1
            mass = rng.uniform(80, 3000)
            cd = rng.uniform(0.2, 0.9)
            geo = VehicleGeometry(vehicle_type=rng.choice([BICYCLE, MOTORCYCLE]) if i["two"] else rng.choice([CAR, TRUCK]), m=mass, Iz=2 * mass, w_half=0.8,
                                  lf=1.0, lr=2.0, c_drag=cd, a_drag=2 * mass / (1000 * 1.249512 * cd), e=0.5, color="red", h_cog=0.75, c_rr_f=0.02, c_rr_r=0.025)
            st = VehicleStateDyn(x=rng.uniform(-50, 50), y=rng.uniform(-50, 50), psi=psi_of(i["a"]), vx=r(i["vx"]), delta=NZ[i["n"]], vy=r(i["vy"]), dpsi=r(i["w"]))
            m = VehicleModelDyn(st, geo, VEH_P[p], *(tyre(s, k, g, rng) for s, k, g in zip(c["slip"], i["k"], i["g"])))
            m.has_collided = i["col"]
            u = VehicleCommands(acc=r(i["acc"]), ddelta=r(i["dd"]))
            d = m.dynamics(st, u)
            chk.evals += 1
            fields = "x y psi vx vy dpsi delta".split()
            exp = [r(q) for q in c["d"]] + [r(c["dd"])]
            w = {f: (float(getattr(d, f)), e) for f, e in zip(fields, exp) if not math.isclose(float(getattr(d, f)), e, rel_tol=1e-7, abs_tol=1e-7)}
            if w:
                chk.violation(clause, f"{geo.vehicle_type} on tyres{', collided' if i['col'] else ''}, state {st} command {u}: derivative (got, expected) {w}", c)


# ------------------------------------------------------------------ recorded relations
S = 10000


def fx(v):
    return int(round(max(-200.0, min(200.0, float(v))) * S))


def random_model(rng, kind):
    """symmetric limits, so that mirrored situations are comparable"""
    u = rng.uniform
    p = dict(x=u(-20, 20), y=u(-20, 20), psi=u(-4, 4))
    vmax, amax = u(2, 12), u(1, 6)
    if kind in ("veh", "vdyn"):
        vt = rng.choice([CAR, TRUCK, BICYCLE])
        vp = VehicleParameters(vx_limits=(rng.choice([0.0, -u(0.5, 3)]), vmax), acc_limits=(-u(2, 8), amax), delta_max=u(0.4, 1), ddelta_max=u(0.2, 1))
        g = veh_geo(vt, lf=u(0.8, 2), lr=u(0.8, 2), m=u(80, 3000))
        b = dict(**p, vx=u(vp.vx_limits[0] - 0.2, vmax + 0.2), delta=u(-vp.delta_max, vp.delta_max) * 1.05)
        if kind == "veh":
            return VehicleModel(VehicleState(**b), g, vp)
        b.update(vy=u(-1, 1) if b["vx"] > 1 else 0.0, dpsi=u(-0.4, 0.4) if b["vx"] > 1 else 0.0)
        return VehicleModelDyn(VehicleStateDyn(**b), g, vp, Pacejka4p.default_car_front(), Pacejka4p.default_car_rear())
    if kind == "ped":
        return PedestrianModel(PedestrianState(**p, vx=u(-1.2, vmax + 0.2), vy=u(-1, 1), dpsi=u(-1, 1)), PedestrianGeometry.default(),
                               PedestrianParameters(vx_limits=(rng.choice([0, -1]), vmax), acc_limits=(-u(1, 3), amax), dtheta_max=u(1, 6)))
    if kind == "dif":
        w = u(2, 8)
        return DiffDriveModel(DiffDriveState(**p), DiffDriveGeometry.default(wheelbase=u(0.3, 1), wheelradius=u(0.1, 0.4)),
                              DiffDriveParameters.default(omega_limits=(-w, w)))
    if kind == "dyn":
        w, g = u(1, 2), u(0.5, 2)
        return DynObstacleModel(DynObstacleState(**p, vx=u(-vmax, vmax), vy=u(-vmax, vmax), dpsi=u(-w, w) * 1.1), box(-1, -2, 1, 2),
                                ObstacleGeometry(m=5, Iz=5, e=0.5),
                                DynObstacleParameters(vx_limits=(-vmax, vmax), acc_limits=(-amax, amax), dpsi_limits=(-w, w), ddpsi_limits=(-g, g)))
    if kind == "cra":
        w = u(1, 4)
        return SpacecraftModel(SpacecraftState(**p, vx=u(-8, 8), vy=u(-3, 3), dpsi=u(-w, w) * 1.1),
                               SpacecraftGeometry.default(m=u(20, 60), Iz=u(50, 150), w_half=u(0.5, 1.5)),
                               SpacecraftParameters(vx_limits=(-14, 14), acc_limits=(-amax, amax), dpsi_limits=(-w, w)))
    if kind == "shi":
        dm, dd = u(0.5, 1.2), u(0.3, 1)
        return SpaceshipModel(SpaceshipState(**p, vx=u(-3, 3), vy=u(-3, 3), dpsi=u(-1, 1), delta=u(-dm, dm) * 1.05, m=rng.choice([1.9, 2.5, 3.0])),
                              SpaceshipGeometry.default(Iz=u(1, 3), l_r=u(0.5, 1.5)),
                              SpaceshipParameters.default(delta_limits=(-dm, dm), ddelta_limits=(-dd, dd)))
    if kind == "roc":
        dm, dd = u(0.5, 1.2), u(0.3, 1)
        return RocketModel(RocketState(**p, vx=u(-3, 3), vy=u(-3, 3), dpsi=u(-1, 1), phi=u(-dm, dm) * 1.05, m=rng.choice([1.9, 2.5, 3.0])),
                           RocketGeometry.default(Iz=u(1, 3), l_m=u(0.1, 0.5)),
                           RocketParameters.default(delta_limits=(-dm, dm), ddelta_limits=(-dd, dd)))
    raise ValueError(kind)


def random_cmd(rng, kind, over=True):
    k = 2.0 if over and rng.random() < 0.5 else 0.4
    u = lambda a: rng.choice([0.0, rng.uniform(-a, a) * k, a * k * rng.choice([-1, 1])])
    return dict(veh=lambda: VehicleCommands(acc=u(5), ddelta=u(1)), vdyn=lambda: VehicleCommands(acc=u(5), ddelta=u(1)),
                ped=lambda: PedestrianCommands(acc=u(4), dpsi=u(3)), dif=lambda: DiffDriveCommands(omega_l=u(7), omega_r=u(7)),
                dyn=lambda: DynObstacleCommands(acc_x=u(5), acc_y=u(5), acc_psi=u(2)), cra=lambda: SpacecraftCommands(acc_left=u(5), acc_right=u(5)),
                shi=lambda: SpaceshipCommands(thrust=u(3), ddelta=u(1)), roc=lambda: RocketCommands(F_left=u(3), F_right=u(3), dphi=u(1)))[kind]()


def mirror_state(s):
    neg = {"y", "psi", "vy", "dpsi", "delta"}
    return type(s)(**{f: (-getattr(s, f) if f in neg else getattr(s, f)) for f in s.idx})


def mirror_cmd(u):
    t = type(u)
    if isinstance(u, VehicleCommands):
        return t(acc=u.acc, ddelta=-u.ddelta)
    if isinstance(u, PedestrianCommands):
        return t(acc=u.acc, dpsi=-u.dpsi)
    if isinstance(u, DiffDriveCommands):
        return t(omega_l=u.omega_r, omega_r=u.omega_l)
    if isinstance(u, DynObstacleCommands):
        return t(acc_x=u.acc_x, acc_y=-u.acc_y, acc_psi=-u.acc_psi)
    if isinstance(u, SpacecraftCommands):
        return t(acc_left=u.acc_right, acc_right=u.acc_left)
    if isinstance(u, SpaceshipCommands):
        return t(thrust=u.thrust, ddelta=-u.ddelta)
    return t(F_left=u.F_right, F_right=u.F_left, dphi=u.dphi)


def nums(s):
    """in the order of the state's own definition (x, y, psi first)"""
    order = dict(VehicleState="x y psi vx delta", VehicleStateDyn="x y psi vx vy dpsi delta", PedestrianState="x y psi vx vy dpsi",
                 DiffDriveState="x y psi", DynObstacleState="x y psi vx vy dpsi", SpacecraftState="x y psi vx vy dpsi",
                 SpaceshipState="x y psi vx vy dpsi delta m", RocketState="x y psi vx vy dpsi phi m")[type(s).__name__]
    return [float(getattr(s, f)) for f in order.split()]


def limited(m, s0, s1):
    """the quantities the model limits: pre, post, limits, largest decrease and increase rates"""
    p = m.model_params
    L = lambda f, lim, rate: dict(pre=fx(getattr(s0, f)), post=fx(getattr(s1, f)), lo=fx(lim[0]), hi=fx(lim[1]), rdn=fx(rate[0]), rup=fx(rate[1]))
    inf = (-199.0, 199.0)
    if isinstance(m, VehicleModelDyn):
        return [L("delta", (-p.delta_max, p.delta_max), (-p.ddelta_max, p.ddelta_max))]
    if isinstance(m, VehicleModel):
        return [L("vx", p.vx_limits, p.acc_limits), L("delta", (-p.delta_max, p.delta_max), (-p.ddelta_max, p.ddelta_max))]
    if isinstance(m, PedestrianModel):
        return [L("vx", p.vx_limits, p.acc_limits), L("psi", inf, (-p.dtheta_max, p.dtheta_max))]
    if isinstance(m, DiffDriveModel):
        w, g = p.omega_limits, m.model_geometry
        v, o = w[1] * g.wheelradius, (w[1] - w[0]) * g.wheelradius / g.wheelbase
        return [L("psi", inf, (-o, o)), L("x", inf, (-v, v)), L("y", inf, (-v, v))]
    if isinstance(m, DynObstacleModel):
        return [L("vx", p.vx_limits, p.acc_limits), L("vy", p.vx_limits, p.acc_limits), L("dpsi", p.dpsi_limits, p.ddpsi_limits)]
    if isinstance(m, SpacecraftModel):
        k = m.sg.w_half * m.sg.m / m.sg.Iz * (p.acc_limits[1] - p.acc_limits[0])
        return [L("dpsi", p.dpsi_limits, (-k, k))]
    if isinstance(m, SpaceshipModel):
        return [L("delta", p.delta_limits, p.ddelta_limits), L("m", (p.m_v, 199.0), (-p.C_T * p.thrust_limits[1], -p.C_T * p.thrust_limits[0]))]
    return [L("phi", p.delta_limits, p.ddelta_limits), L("m", (p.m_v, 199.0), (-p.C_T * 2 * p.F_limits[1], -p.C_T * 2 * p.F_limits[0]))]


def kinked(m, s0, s1):
    """does a limit start or stop acting during the step (the derivative jumps)"""
    lims = limited(m, s0, s1)
    if any((q["pre"] <= q["lo"] + 300) != (q["post"] <= q["lo"] + 300) or (q["pre"] >= q["hi"] - 300) != (q["post"] >= q["hi"] - 300) for q in lims):
        return True
    if any(min(abs(q[a] - q[b]) for a in ("pre", "post") for b in ("lo", "hi")) < 3000 for q in lims):
        return True
    if isinstance(m, VehicleModelDyn):  # the tyre model takes over above 0.1 m/s; its own speed limits act inside it
        vs = [s0.vx, s1.vx]
        return min(vs) < 1.0 or any(min(abs(v - l) for v in vs) < 0.3 for l in m.vp.vx_limits) or (vs[0] > m.vp.vx_limits[1]) != (vs[1] > m.vp.vx_limits[1])
    return False
