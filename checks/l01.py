"""Lanes: parametrisation, outline (spec/LaneMC.tla), curved lanes (spec/LaneTrace.tla)"""
import math

import numpy as np
from geometry import translation_angle_from_SE2

from vf.impact import Frame
from vf.lanelib import *


def run(chk):
    rng = chk.rng
    for c in cases(chk):
        chk.traces += 1
        fr = Frame(rng)
        lane = straight(c, fr, rng)
        n = len(c["lane"]["x"])

        def bad(cl, what):
            chk.violation(f"L01.{cl}", f"{what}; lane with control points at {c['lane']['x']} half widths {c['lane']['r']} frame {fr.t} {fr.th}", c["lane"])

        if abs(lane.get_lane_length() - r(c["lane"]["length"])) > 1e-9:
            bad("length", f"length {lane.get_lane_length()}")
        exp = [r(x) for x in c["lane"]["x"]]
        if not np.allclose(lane.get_lane_lengths(), np.diff(exp), atol=1e-9):
            bad("length", f"lengths {lane.get_lane_lengths()}")
        prof = c["lane"]["profile"]
        if rng.random() < 0.4:
            lane.lane_profile(*rng.choice([(), (2,), (4,)]))
        got = lane.lane_profile(points_per_segment=3)
        want = [fr.pt((r(a), -r(w))) for a, w in prof] + [fr.pt((r(a), r(w))) for a, w in reversed(prof)]
        if len(got) != len(want) or not np.allclose(got, want, atol=1e-7):
            bad("outline", f"outline {got}")
        for a, b, *_, p in c["q"]:
            chk.evals += 1
            a, b, w = r(a), r(b), r(p["r"])
            if abs(lane.beta_from_along_lane(a) - b) > 1e-7:
                bad("parameter", f"progress {a}: parameter {lane.beta_from_along_lane(a)} expected {b}")
            if abs(lane.along_lane_from_beta(b) - a) > 1e-7:
                bad("progress", f"parameter {b}: progress {lane.along_lane_from_beta(b)} expected {a}")
            if abs(lane.radius(b) - w) > 1e-7:
                bad("width", f"parameter {b}: half width {lane.radius(b)} expected {w}")
            for q in (lane.center_point(b), lane.center_point_fast_SE2Transform(b).as_SE2()):
                t, th = translation_angle_from_SE2(q)
                if not np.allclose(t, fr.pt((a, 0)), atol=1e-6) or abs(wrap(th - fr.th)) > 1e-6:
                    bad("center", f"centre at parameter {b}: {t} {th}")
    # curved lanes
    trs = []
    for _ in range(150 if chk.quick else 3000):
        lane, R, phi, place, borders, ws = arc(rng)
        tr, off = geometry_events(lane, rng, borders, R * abs(phi) / (len(ws) - 1))
        n = len(lane.control_points)
        da = abs(phi) / (n - 1)
        sag = R * (1 - math.cos(da / 2)) * 1.02 + 1e-3
        for _ in range(6):
            b = rng.uniform(-1.5, n + 0.5)
            q = lane.center_point_fast_SE2Transform(b)
            t, th = translation_angle_from_SE2(lane.center_point(b))
            end = b < 0 or b > n - 1
            tr.append(dict(op="quick", p=p2(t - off), q=p2(q.p - off), sag=fx(sag + R * da**3 / 30 if not end else 1e-3), dh=fx(wrap(q.theta - th)), turn=fx(0 if end else 1e-3),
                           info=f"parameter {b}: {q}, exact {t} {th}; arc R {R} angle {phi} {n} points"))
        trs.append(tr)
    check(chk, trs, "L01")
    chk.sample(dict(trace=trs[0][:3]))


def cases(chk):
    cs = chk.emit("LaneMC", constants=dict(Size=1 if chk.quick else 2), workers=1 if not chk.quick else 8, invariants=["Bijective", "Rising", "Exclusive", "Emit"], timeout=3000)
    cs.sort(key=repr)
    return cs


def check(chk, trs, mine):
    for i, bs in chk.validate("LaneTrace", trs, chunk=600).items():
        for cl, pos in bs:
            if cl.startswith(mine):
                e = trs[i][pos - 1]
                chk.violation(cl, e.get("info", e), e)
