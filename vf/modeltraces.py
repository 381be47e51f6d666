"""Traces of real model updates for spec/ModelTrace.tla"""
from copy import deepcopy
from dataclasses import replace
from decimal import Decimal
from math import cos, sin

from vf.modelcases import *

ALL = ("veh", "vdyn") + KINDS[1:]


def steps(rng, n=12):
    """updates of one model under arbitrary commands"""
    kind = rng.choice(ALL)
    m = random_model(rng, kind)
    tr = []
    for _ in range(n):
        dt = Decimal(rng.choice(["0.01", "0.05", "0.1", "0.2"]))
        u = random_cmd(rng, kind)
        s0 = deepcopy(m._state)
        for _ in range(rng.choice([1, 1, 3])):
            s0 = m.get_state()
            m.update(u, dt)
        s1 = m.get_state()
        # solver accuracy: 1e-3 relative
        tr.append(dict(op="step", kind=kind, q=limited(m, s0, s1), dt=fx(dt), tol=20 + fx(0.01 * float(dt)), info=f"{s0} {u} dt={dt} -> {s1}"))
    return tr


def motion(rng, n=6):
    kind = rng.choice(ALL)
    tr = []
    for _ in range(n):
        m = random_model(rng, kind)
        u = random_cmd(rng, kind, over=rng.random() < 0.3)
        s0 = m.get_state()
        info = f"{kind} {s0} {u}"
        d0 = m.dynamics(s0, u)
        # the derivative is that of the state asked for, whatever the model has been through
        other = random_model(rng, kind).get_state()
        m.set_state(other)
        tr.append(dict(op="same", clause="M03.asked", a=list(map(fx, nums(d0))), b=list(map(fx, nums(m.dynamics(deepcopy(s0), u)))), tol=0, info=f"{info}; the model itself is at {other}"))
        # turned by an angle and moved elsewhere
        a = rng.uniform(-3, 3)
        st = deepcopy(s0)
        st.psi, st.x, st.y = s0.psi + a, rng.uniform(-99, 99), rng.uniform(-99, 99)
        if kind == "roc":
            st.vx, st.vy = cos(a) * s0.vx - sin(a) * s0.vy, sin(a) * s0.vx + cos(a) * s0.vy
        m.set_state(st)
        tr.append(dict(op="turn", kind=kind, c=fx(cos(a)), s=fx(sin(a)), a=list(map(fx, nums(d0))), b=list(map(fx, nums(m.dynamics(st, u)))), tol=60, info=info))
        # mirrored
        sm, um = mirror_state(s0), mirror_cmd(u)
        m.set_state(sm)
        tr.append(dict(op="mirror", kind=kind, a=list(map(fx, nums(d0))), b=list(map(fx, nums(m.dynamics(sm, um)))), tol=5, info=info))
        if kind == "vdyn":
            st = deepcopy(s0)
            st.vx = rng.uniform(1.5, 15)
            for f in ("vy", "dpsi", "delta"):
                if rng.random() < 0.6:
                    setattr(st, f, 0.0)
            st.delta = max(-0.3, min(0.3, st.delta))
            st.vy = max(-0.3 * st.vx, min(0.3 * st.vx, st.vy))
            m.set_state(st)
            d = m.dynamics(st, u)
            acc = max(m.vp.acc_limits[0], min(m.vp.acc_limits[1], u.acc))
            grip = 9.81 * 1.0 * 1.02 + 1.0 + abs(math.sin(st.delta)) * (9 + 9.81) + 0.25 * abs(acc)
            tr.append(dict(op="tyres", vx=fx(st.vx), vy=fx(st.vy), w=fx(st.dpsi), delta=fx(st.delta), c=fx(cos(st.psi)), s=fx(sin(st.psi)),
                           d=list(map(fx, nums(d))), grip=fx(grip), acc=fx(acc), tol=60, info=f"vdyn {st} {u} -> {d}"))
            # air drag: two speeds straight ahead
            st.vy = st.dpsi = st.delta = 0.0
            vs = sorted(rng.sample(range(2, 35), 2))
            vp, ds = m.vp, []
            m.vp = replace(vp, vx_limits=(-2, 40))
            u0 = VehicleCommands(acc=rng.choice([-2.0, 0.0, 0.5]), ddelta=0.0)
            for v in vs:
                st.vx = float(v)
                m.set_state(st)
                ds.append(m.dynamics(st, u0).vx)
            m.vp = vp
            tr.append(dict(op="drag", v1=vs[0], v2=vs[1], cd=round(100 * m.vg.a_drag * m.vg.c_drag), force=round(10 * m.vg.m * (ds[0] - ds[1])),
                           info=f"vdyn straight ahead at {vs}: accelerations {ds} with {u0}, mass {m.vg.m}"))
        # a short update against the derivative, and one update against two halves
        dt = rng.choice(["0.01", "0.02"]) if kind != "vdyn" else "0.004"  # tyres are stiff
        m.set_state(deepcopy(s0))
        m.update(u, Decimal(dt))
        s1 = m.get_state()
        if not kinked(m, s0, s1):
            d1 = m.dynamics(s1, u)
            big = max(abs(float(v)) for v in nums(d0) + nums(d1))
            tr.append(dict(op="integ", pre=list(map(fx, nums(s0))), post=list(map(fx, nums(s1))), r0=list(map(fx, nums(d0))), r1=list(map(fx, nums(d1))),
                           dt=fx(dt), tol=20 + int(big * 12), info=info + f" -> {s1}"))
        for dt in ("0.1",):
            m.set_state(deepcopy(s0))
            m.update(u, Decimal(dt))
            one = m.get_state()
            m.set_state(deepcopy(s0))
            for _ in range(2):
                m.update(u, Decimal(dt) / 2)
            two = m.get_state()
            if not kinked(m, s0, one) and kind != "vdyn":
                tr.append(dict(op="same", clause="M03.steps-compose", a=list(map(fx, nums(one))), b=list(map(fx, nums(two))), tol=60, info=info + f" {one} {two}"))
    return tr


def validate(chk, trs, mine, clause=None):
    for i, bs in chk.validate("ModelTrace", trs, chunk=400).items():
        for cl, pos in bs:
            if cl.startswith(mine):
                e = trs[i][pos - 1]
                chk.violation(cl, e.get("info", e), e)
