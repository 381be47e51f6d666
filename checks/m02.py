"""Velocity, pose, footprint and mesh of the models: spec/VelMC.tla"""
from math import atan
from copy import deepcopy

import numpy as np
from shapely.affinity import affine_transform
from shapely.geometry import Point
from shapely.ops import unary_union

from dg_commons.sim.collision_structures import *
from vf.geo import same_shape
from vf.modelcases import *

FAMILIES = dict(free=("vdyn", "ped", "dyn", "cra", "shi"), world=("roc",), rolling=("veh",), driven=("dif",))


def make(kind, rng, a):
    m = random_model(rng, kind)
    st = m._state
    st.psi = psi_of(a)
    if kind == "veh":
        m = VehicleModel(st, veh_geo(rng.choice([CAR, TRUCK, BICYCLE])), VEH_P)
        st.vx, st.delta = 1.0, atan(0.5)
    elif kind == "roc":
        c, s = ANG[a - 1]
        st.vx, st.vy, st.dpsi = c * 1 - s * 3, s * 1 + c * 3, 1.0
    elif kind != "dif":
        st.vx, st.vy, st.dpsi = 1.0, 3.0, 1.0
    return m


def run(chk):
    rng = chk.rng
    ops = 3 if chk.quick else 4
    for fam, kinds in FAMILIES.items():
        behs = chk.emit("VelMC", constants=dict(PSet=1, Family=f'"{fam}"', MaxOps=ops if fam != "driven" else 2), invariants=["Frames", "ReadBack", "Emit"],
                        workers=8, label=f"VelMC/{fam}")
        behs.sort(key=repr)
        if len(behs) > (1500 if chk.quick else 20000):
            rng.shuffle(behs)
            behs = behs[: 1500 if chk.quick else 20000]
        for b in behs:
            for kind in (kinds if not chk.quick else [rng.choice(kinds)]):
                # the first heading is the heading in force before the first turn
                a0 = next((o["a"] for o in b["h"] if o["op"] != "turn"), None)
                first_turn = next((n for n, o in enumerate(b["h"]) if o["op"] == "turn"), None)
                if a0 is None or (first_turn == 0):
                    a0 = None
                for a in ([a0] if a0 else [1, 3]):
                    one(chk, kind, fam, b, a)
            chk.traces += 1
        chk.sample(dict(kind="velocity history", family=fam, case=behs[0]))


def one(chk, kind, fam, b, a):
    rng = chk.rng
    m = make(kind, rng, a)
    world_turn_first = fam == "world" and b["h"][0]["op"] == "turn"
    if world_turn_first:
        return  # its expected values depend on the initial heading, which the history does not name
    for o in b["h"]:
        if rng.random() < 0.7:  # looked at in between
            m.get_footprint(), m.get_mesh(), m.get_pose(), m.get_velocity(in_model_frame=rng.random() < 0.5)
        v = np.array([r(o["v"][0]), r(o["v"][1])])
        if o["op"] == "turn":
            st = m.get_state()
            st.psi = psi_of(o["a"])
            m.set_state(st)
        else:
            keep = v.copy()
            m.set_velocity(v, r(o["w"]), in_model_frame=o["op"] == "body")
            if not np.array_equal(keep, v):
                chk.violation("M02.velocity", f"{kind}: set_velocity changed the velocity it was given", b)
    chk.evals += 1
    for frame, exp in ((True, b["b"]), (False, b["g"])):
        v, w = m.get_velocity(in_model_frame=frame)
        if not np.allclose(v, [r(q) for q in exp], atol=1e-9) or abs(w - r(b["w"])) > 1e-9:
            chk.violation("M02.velocity", f"{type(m).__name__} after {b['h']}: velocity in {'body' if frame else 'world'} frame {v}, {w} expected {exp}, {b['w']}", b)
    # pose and footprint
    st = m.get_state()
    c, s = ANG[b["a"] - 1]
    T = np.array([[c, -s, st.x], [s, c, st.y], [0, 0, 1]])
    if not np.allclose(m.get_pose(), T, atol=1e-9):
        chk.violation("M02.pose", f"{kind}: pose {m.get_pose()} expected {T}", b)
    if kind == "dyn":
        out = m.shape
    else:
        out = m.model_geometry.outline_as_polygon
        if not np.allclose(np.array(out.exterior.coords[:-1])[:, :2][:1], np.array(m.model_geometry.outline)[:1]):
            chk.violation("M02.footprint", f"{kind}: outline and outline polygon differ", b)
    # bodies are symmetric about their axis, and the point that moves with the velocity is inside
    mirrored = affine_transform(out, [1, 0, 0, -1, 0, 0])
    if out.symmetric_difference(mirrored).area > 1e-6 * out.area or not out.contains(Point(0, 0)):
        chk.violation("M02.footprint", f"{kind}: outline {out.bounds} is lopsided or beside the body", b)
    if kind in ("ped", "dif") and np.hypot(*np.array(out.centroid.coords[0])) > 1e-3:
        chk.violation("M02.footprint", f"{kind}: outline {out.bounds} is not around the body", b)
    exp = affine_transform(out, [c, -s, s, c, st.x, st.y])
    fp = m.get_footprint()
    if not same_shape(fp, exp):
        chk.violation("M02.footprint", f"{kind} at {st}: footprint {fp.bounds} expected {exp.bounds}", b)
    mesh = m.get_mesh()
    if not same_shape(unary_union(list(mesh.values())), fp) or abs(sum(p.area for p in mesh.values()) - fp.area) > 1e-6 * fp.area:
        chk.violation("M02.mesh", f"{kind}: impact regions {list(mesh)} do not partition the footprint", b)
    sides = {IMPACT_FRONT: (1, 0), IMPACT_BACK: (-1, 0), IMPACT_LEFT: (0, 1), IMPACT_RIGHT: (0, -1)}
    ctr = np.array(fp.centroid.coords[0])
    for loc, p in mesh.items():
        if loc in sides:
            local = np.array([[c, s], [-s, c]]) @ (np.array(p.centroid.coords[0]) - ctr)
            d = sides[loc]
            if local @ d <= 0 or abs(local @ (-d[1], d[0])) > 1e-6:
                chk.violation("M02.mesh", f"{kind}: region {loc} lies at {local} in the body frame", b)
    # reading the state and observing does not change the body
    st2 = m.get_state()
    if st2 != st or nums(st2) != nums(m._state):
        chk.violation("M02.pose", f"{kind}: observing changed the state {st} {st2}", b)
