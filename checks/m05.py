"""Bodies built to their dimensions: spec/BodyMC.tla looks at them, the real geometries are compared part by part"""
import itertools
import json
import math
import os
from copy import deepcopy
from dataclasses import FrozenInstanceError, fields, replace
from inspect import signature

import numpy as np
from shapely.affinity import scale
from shapely.geometry import Point, Polygon, box
from shapely.ops import unary_union

from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.model_structures import BICYCLE, CAR, DIFF_DRIVE, MOTORCYCLE, TRUCK, ModelParameters
from dg_commons.sim.models.obstacles import DynObstacleParameters
from dg_commons.sim.models.pedestrian import PedestrianGeometry
from dg_commons.sim.models.pedestrian_utils import PedestrianParameters
from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry, SpacecraftParameters
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ANGLES = [((1, 1), (0, 1)), ((4, 5), (3, 5)), ((4, 5), (-3, 5)), ((12, 13), (-5, 13)), ((3, 5), (4, 5)), ((15, 17), (8, 17))]
ROAD = dict(car=CAR, truck=TRUCK, bicycle=BICYCLE, motorcycle=MOTORCYCLE)
FACTORY = dict(car=VehicleGeometry.default_car, truck=VehicleGeometry.default_truck, bicycle=VehicleGeometry.default_bicycle, spacecraft=SpacecraftGeometry.default,
               spaceship=SpaceshipGeometry.default, rocket=RocketGeometry.default, diffdrive=DiffDriveGeometry.default)
DIMS = dict(car=dict(w_half=(60, 120), lf=(70, 300), lr=(70, 300)), truck=dict(w_half=(80, 150), lf=(100, 600), lr=(100, 600)),
            bicycle=dict(w_half=(20, 50), lf=(40, 140), lr=(40, 140)), motorcycle=dict(w_half=(20, 50), lf=(40, 140), lr=(40, 140)),
            spacecraft=dict(w_half=(50, 200), lf=(50, 300), lr=(310, 500)),
            spaceship=dict(w_half=(20, 90), l_c=(20, 150), l_f=(10, 150), l_r=(20, 200), l_t_half=(5, 60), w_t_half=(1, 15), F_max=(10, 90)),
            rocket=dict(w_half=(10, 90), l_c=(20, 150), l_f=(5, 90), l_m=(10, 120), l_r=(20, 120), l_t_half=(5, 60), w_t_half=(1, 15), F_max=(10, 90)),
            diffdrive=dict(wheelbase=(20, 200), wheelradius=(5, 60), radius=(20, 200)), pedestrian={})
UNIT = dict(F_max=10)  # everything else in hundredths


def scenes(rng, n):
    out = []
    for j in range(n):
        kind = sorted(DIMS)[j % len(DIMS)]
        d = {f: rng.randint(*b) for f, b in DIMS[kind].items()}
        looks = [dict(c=a[0], s=a[1], f=[rng.choice([0, d.get("F_max", 10), rng.randint(0, 60)]) for _ in range(2)]) for a in (rng.choice(ANGLES) for _ in range(rng.randint(1, 4)))]
        out.append(dict(kind=kind, d=d or dict(none=0), looks=looks))
    return out


def real(kind, d, rng, more):
    """the geometry made by a factory or field by field"""
    v = {f: x / UNIT.get(f, 100) for f, x in d.items() if f != "none"}
    if kind == "pedestrian":
        return PedestrianGeometry(e=0.3, **more) if rng.random() < 0.5 else PedestrianGeometry.default()
    if kind in FACTORY and rng.random() < 0.6:
        return FACTORY[kind](**v, **more)
    v |= more | dict(e=0.25)
    if kind in ROAD:
        return VehicleGeometry(vehicle_type=ROAD[kind], c_drag=0.3, a_drag=2, **v)
    if kind == "rocket":
        return RocketGeometry(l=v["l_c"] + v["l_f"] + v["l_m"] + v["l_r"], **v)
    return dict(spacecraft=SpacecraftGeometry, spaceship=SpaceshipGeometry)[kind](**v) if kind != "diffdrive" else DiffDriveGeometry(vehicle_type=DIFF_DRIVE, **v)


def m_(q):
    return q[0] / q[1] / 100


def poly(ps):
    return Polygon([(m_(p[0]), m_(p[1])) for p in ps])


def columns(w):
    w = np.asarray(w)
    return Polygon(w[:2].T if w.ndim == 2 and w.shape[0] in (2, 3) and w.shape[1] > 3 else w)


def same(a, b, tol=1e-7):
    return a.is_valid and a.symmetric_difference(b).area <= tol * max(b.area, 1e-3) and np.allclose(a.bounds, b.bounds, atol=1e-7)


def run(chk):
    rng = chk.rng
    cases = scenes(rng, 900 if chk.quick else 20000)
    path = os.path.join(chk.scratch, "in.json")
    json.dump(cases, open(path, "w"))
    res = chk.emit("BodyMC", env={"IN": path}, invariants=["Symmetric", "Within", "Long", "Covered", "Centred", "Parallel", "AtTheEnds", "Attached", "Twin", "Emit"], workers=8)
    looks = {}
    for e in res:
        looks.setdefault(e["i"], {})[e["k"]] = e
    for i in sorted(looks):
        chk.traces += 1
        one(chk, rng, cases[i - 1], [looks[i][k] for k in sorted(looks[i])])
    parameters(chk, rng)
    chk.sample(dict(scene=cases[0], looks=res[0]))


def one(chk, rng, sc, exp):
    kind, d = sc["kind"], sc["d"]

    def bad(cl, what):
        chk.violation(f"M05.{cl}", f"{what}; {kind} {d}", sc)

    more = dict(m=rng.uniform(1, 90), Iz=rng.uniform(1, 90), color="teal")
    g = real(kind, d, rng, more)
    default = kind == "pedestrian" and g == PedestrianGeometry.default()
    if not default and (g.m, g.Iz, g.color) != tuple(more.values()):
        bad("factory", f"mass, inertia, colour {g.m} {g.Iz} {g.color} asked for {more}")
    for f, v in d.items():
        if f != "none" and abs(getattr(g, f) - v / UNIT.get(f, 100)) > 1e-12:
            bad("factory", f"{f} {getattr(g, f)} asked for {v / UNIT.get(f, 100)}")
    if kind in ROAD and g.vehicle_type != ROAD[kind]:
        bad("factory", f"type {g.vehicle_type}")
    if not 0 <= g.e <= 1:
        bad("factory", f"restitution {g.e}")
    before = {f.name: getattr(g, f.name) for f in fields(g)}
    # looked at in any order, from a copy or from one with other dimensions in between
    for sh, e in zip(sc["looks"], exp):
        chk.evals += 1
        h = deepcopy(g) if rng.random() < 0.3 else g
        if rng.random() < 0.3 and d.get("w_half"):  # a wider one does not change this one, and is wider itself
            wide = replace(h, w_half=h.w_half + 0.5)
            a, b = Polygon(wide.outline).bounds, Polygon(h.outline).bounds
            if abs((a[3] - a[1]) - (b[3] - b[1]) - 1.0) > 1e-9 or abs(wide.width - h.width - 1.0) > 1e-9:
                bad("outline", f"a metre wider: {b} becomes {a}, width {h.width} {wide.width}")
        steps = [outline, wheels, lamps, thrusters, sizes]
        rng.shuffle(steps)
        for step in steps:
            step(bad, kind, h, sh, e)
    if {f.name: getattr(g, f.name) for f in fields(g)} != before:
        bad("frozen", "looking changed it")
    twin = type(g)(**{f.name: getattr(g, f.name) for f in fields(g)})
    if twin != g or hash(twin) != hash(g) or len({twin, g}) != 1:
        bad("frozen", "an equal one is not the same")
    f = rng.choice([f for f in before if isinstance(before[f], (int, float)) and f != "e"])
    other = replace(g, **{f: before[f] * 1.25 if not (kind == "spacecraft" and f == "lf") else before[f] * 0.8})
    if other == g:
        bad("frozen", f"another {f} makes no difference")
    try:
        setattr(g, f, 1.0)
        bad("frozen", f"{f} can be changed")
    except (FrozenInstanceError, AttributeError):
        pass
    # dimensions that are not given are the usual ones, whatever is given
    if kind in FACTORY:
        names = [n for n in signature(FACTORY[kind]).parameters if n in d]
        given = {n: d[n] / UNIT.get(n, 100) for n in names if rng.random() < 0.5 and not (kind == "spacecraft" and n in ("lf", "lr"))}
        part, usual = FACTORY[kind](**given), FACTORY[kind]()
        for fl in fields(part):
            if fl.name != "l" and getattr(part, fl.name) != given.get(fl.name, getattr(usual, fl.name)):
                bad("factory", f"{fl.name} {getattr(part, fl.name)} if only {given} is given")


def outline(bad, kind, g, sh, e):
    if e["straight"]:
        want = poly(e["straight"])
        close = lambda a: same(a, want)
    else:
        ax = [v / 100 for v in e["axes"]]
        want = scale(Point(0, 0).buffer(1, 256), *ax)
        if e["boxed"]:
            want = unary_union([want, poly(e["boxed"])])
        # round ones: drawn with some corners on the curve
        close = lambda a: a.area > 0.99 * want.area and a.difference(want).area < 2e-3 * want.area and np.allclose(a.bounds, want.bounds, atol=1e-2)
    a = Polygon(g.outline)
    if not (a.is_valid and close(a)):
        bad("outline", f"outline {list(g.outline)[:8]} expected {want.bounds} area {want.area} and is {a.area}")
    b = g.outline_as_polygon
    if not same(b, a):
        bad("outline", f"outline as polygon {b.bounds} but outline {a.bounds}")
    if hasattr(g, "outline_as_polygon_wkt"):
        from shapely import wkt
        if not same(wkt.loads(g.outline_as_polygon_wkt), a):
            bad("outline", "text of the outline differs")


def match(bad, cl, got, want, what):
    """the same parts, in any order"""
    got = list(got)
    if len(got) != len(want):
        bad(cl, f"{len(got)} {what} expected {len(want)}")
        return
    for w in want:
        hit = next((j for j, p in enumerate(got) if same(p, w)), None)
        if hit is None:
            bad(cl, f"{what}: none at {list(w.exterior.coords)}, left {[list(p.exterior.coords) for p in got]}")
            return
        got.pop(hit)


def wheels(bad, kind, g, sh, e):
    if not e["wheels"]:
        return
    want = [poly(w) for w in e["wheels"]]
    delta = math.atan2(sh["s"][0] / sh["s"][1], sh["c"][0] / sh["c"][1])
    got = [columns(w) for w in (g.wheels_outlines if kind == "diffdrive" else g.get_rotated_wheels_outlines(delta))]
    match(bad, "wheels", got, want, f"wheels steered by {delta}")
    if g.n_wheels != len(want):
        bad("wheels", f"{g.n_wheels} wheels expected {len(want)}")
    at = sorted(tuple(np.round(p.centroid.coords[0], 6)) for p in want)
    if not np.allclose(sorted(tuple(np.round(p, 6)) for p in np.asarray(g.wheels_position)[:2].T), at, atol=1e-5):
        bad("wheels", f"wheels at {g.wheels_position} expected {at}")


def lamps(bad, kind, g, sh, e):
    if kind not in ROAD:
        return
    if set(g.lights_position) != set(e["lamps"]):
        bad("lamps", f"lamps {set(g.lights_position)}")
        return
    for name, p in e["lamps"].items():
        if not np.allclose(g.lights_position[name], [m_(p[0]), m_(p[1])], atol=1e-9):
            bad("lamps", f"{name} at {g.lights_position[name]} expected {[m_(p[0]), m_(p[1])]}")


def thrusters(bad, kind, g, sh, e):
    if kind == "spacecraft":
        match(bad, "thrusters", [Polygon(t) for t in g.thrusters_outline_in_body_frame], [poly(t) for t in e["fixed"]], "thrusters")
        n = len(e["fixed"])
    elif kind in ("rocket", "spaceship"):
        phi = math.atan2(sh["s"][0] / sh["s"][1], sh["c"][0] / sh["c"][1])
        n = len(e["nozzles"])
        match(bad, "thrusters", [Polygon(t) for t in g.thrusters_outline_in_body_frame(phi)], [poly(t) for t in e["nozzles"]], f"thrusters at {phi}")
        f = [v / 10 for v in sh["f"]]
        # in this order: the first flame belongs to the first force
        for j, t in enumerate(g.flames_outline_in_body_frame(phi, f if kind == "rocket" else f[0])):
            want = [(m_(p[0]), m_(p[1])) for p in e["flames"][j]]
            if not all(min(math.dist(p, q) for q in list(t)) < 1e-7 for p in want) or len({tuple(np.round(q, 7)) for q in t}) > 3:
                bad("flames", f"flame {j} {list(t)} expected {want} for forces {f} at {phi}")
    else:
        return
    if g.n_thrusters != n:
        bad("thrusters", f"{g.n_thrusters} thrusters expected {n}")


def sizes(bad, kind, g, sh, e):
    if kind != "pedestrian" and abs(g.width - e["width"] / 100) > 1e-9:
        bad("size", f"width {g.width} expected {e['width'] / 100}")
    n = m_(e["length"])
    if kind in ROAD and abs(g.wheelbase - g.lf - g.lr) > 1e-9:
        bad("size", f"wheelbase {g.wheelbase}")
    if kind in ROAD or kind == "diffdrive":
        if abs(g.length - n) > 1e-9:
            bad("size", f"length {g.length} expected {n}")
    elif kind in ("rocket", "spaceship") and abs(g.l - n) > 1e-9:
        bad("size", f"length {g.l} expected {n}")


def parameters(chk, rng):
    """limits in the wrong order are refused, everything else is taken as it is"""
    pairs = dict(ModelParameters=[], DynObstacleParameters=["dpsi_limits", "ddpsi_limits"], SpacecraftParameters=["dpsi_limits"], DiffDriveParameters=["omega_limits"],
                 RocketParameters=["F_limits", "delta_limits", "ddelta_limits"], SpaceshipParameters=["thrust_limits", "delta_limits", "ddelta_limits"],
                 VehicleParameters=[], PedestrianParameters=[])
    plain = dict(VehicleParameters=["delta_max", "ddelta_max"], PedestrianParameters=["dtheta_max"])
    for name, more in pairs.items():
        cls = globals()[name]
        rest = {f: 1.5 for f in ("m_v", "C_T") if name in ("RocketParameters", "SpaceshipParameters")}
        lims = ["vx_limits", "acc_limits"] + more
        for wrong in [()] + [c for n in (1, 2) for c in itertools.combinations(lims + plain.get(name, []), n)]:
            chk.evals += 1
            a = rng.uniform(0.5, 3)
            v = {f: rng.choice([(1.0, 1.0), (a, -a), (0.0, -0.5)]) if f in wrong else rng.choice([(-a, a), (-a - 2, -a), (0.0, a)]) for f in lims}
            v |= {f: rng.choice([0.0, -a]) if f in wrong else a for f in plain.get(name, [])}
            try:
                p = cls(**v, **rest)
            except Exception:
                if not wrong:
                    chk.violation("M05.limits", f"{name} refuses {v}", v)
                continue
            if wrong:
                chk.violation("M05.limits", f"{name} takes {v}", v)
            elif any(getattr(p, f) != x for f, x in v.items()) or p != cls(**v, **rest) or hash(p) != hash(cls(**v, **rest)):
                chk.violation("M05.limits", f"{name} with {v} is {p}", v)
    for make in (VehicleParameters.default_car, VehicleParameters.default_truck, VehicleParameters.default_bicycle, PedestrianParameters.default, SpacecraftParameters.default):
        p = make()
        if p != make() or not (p.vx_limits[0] < 0 < p.vx_limits[1] and p.acc_limits[0] < 0 < p.acc_limits[1] and p.vx_limits[1] >= -p.vx_limits[0]):
            chk.violation("M05.limits", f"usual limits {p}", str(p))
    for cls in (RocketParameters, SpaceshipParameters, DiffDriveParameters):
        usual = cls.default()
        for f in signature(cls.default).parameters:
            v = getattr(usual, f)
            v = tuple(x * 1.5 for x in v) if isinstance(v, tuple) else v * 1.5
            p = cls.default(**{f: v})
            if any(getattr(p, x.name) != (v if x.name == f else getattr(usual, x.name)) for x in fields(p)):
                chk.violation("M05.limits", f"{cls.__name__} with {f} {v} is {p}", f)
    for lf, lr in ((3, 2), (2, 2)):
        try:
            SpacecraftGeometry.default(lf=lf, lr=lr)
            chk.violation("M05.limits", f"a spacecraft with {lf} in front of and {lr} behind its centre is taken", (lf, lr))
        except AssertionError:
            pass
