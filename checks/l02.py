"""Where in the lane a body is: straight lanes (spec/LaneMC.tla), curved and recorded lanes (spec/LaneTrace.tla)"""
import glob
import math

import numpy as np
from commonroad.common.file_reader import CommonRoadFileReader
from geometry import translation_angle_from_SE2

from checks.l01 import cases, check
from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet
from vf.impact import Frame
from vf.lanelib import *

FLAGS = "inside lateral_inside along_inside along_before along_after outside_left outside_right correct_direction".split()
DIST = dict(distance_from_left="distance_from_left", distance_from_right="distance_from_right", distance_from_center="distance_from_center")


def run(chk):
    rng = chk.rng
    for c in cases(chk):
        chk.traces += 1
        fr = Frame(rng)
        lane = straight(c, fr, rng)
        L = r(c["lane"]["length"])
        xs = [r(x) for x in c["lane"]["x"]]
        slope = 2.0
        qs = c["q"] if not chk.quick else rng.sample(c["q"], min(25, len(c["q"])))
        for a, _, y, k, p in qs:
            chk.evals += 1
            a, y, h, w = r(a), r(y), k * math.pi / 24, r(p["r"])
            info = f"progress {a} offset {y} heading {h} in the lane with control points at {xs}, half widths {[r(x) for x in c['lane']['r']]}, frame {fr.t} {fr.th}"

            def bad(cl, what):
                chk.violation(f"L02.{cl}", f"{what}; {info}", c["lane"])

            exact = lane.lane_pose(along_lane=a, relative_heading=h, lateral=y)
            for f in FLAGS:
                if a == L and f in ("along_inside", "inside", "along_after") or abs(y) == w and f in ("inside", "lateral_inside", "outside_left", "outside_right"):
                    continue  # on the limit: rounding decides
                if bool(getattr(exact, f)) != p[f]:
                    bad(f, f"lane_pose says {f}={getattr(exact, f)}")
            vals = dict(along_lane=a, relative_heading=h, lateral=y, lateral_left=w, lateral_right=-w, **{f: r(p[f]) for f in DIST})
            for f, e in vals.items():
                if abs(getattr(exact, f) - e) > 1e-7:
                    bad(f, f"lane_pose: {f}={getattr(exact, f)} expected {e}")
            cp = exact.center_point
            if not np.allclose(cp.p, fr.pt((a, 0)), atol=1e-6) or abs(wrap(cp.theta - fr.th)) > 1e-6:
                bad("center_point", f"lane_pose: centre {cp}")
            # from the pose of the body
            tol = 3e-3 * (L + abs(a)) + 1e-6
            P = fr.pt((a, y))
            q = SE2Transform(P, fr.th + h + 2 * math.pi * rng.randint(-1, 1))
            got = lane.lane_pose_from_SE2_generic(q.as_SE2()) if rng.random() < 0.5 else lane.lane_pose_from_SE2Transform(q)
            far = dict(along_before=abs(a) > tol, along_after=abs(a - L) > tol, along_inside=abs(a) > tol and abs(a - L) > tol)
            wl = slope * tol
            far["lateral_inside"] = abs(abs(y) - w) > wl
            far["outside_left"] = far["outside_right"] = far["lateral_inside"]
            far["inside"] = far["lateral_inside"] and far["along_inside"]
            for f in FLAGS:
                if far.get(f, True) and bool(getattr(got, f)) != p[f]:
                    bad("pose." + f, f"from the pose: {f}={getattr(got, f)}, {got}")
            for f, e in vals.items():
                t = tol if f == "along_lane" else wl + 1e-6 if f in ("lateral_left", "lateral_right", "distance_from_left", "distance_from_right") else 1e-6
                if f == "relative_heading":
                    ok = abs(wrap(getattr(got, f) - e)) <= 1e-6 and abs(getattr(got, f)) <= math.pi + 1e-9
                else:
                    ok = abs(getattr(got, f) - e) <= t
                if not ok:
                    bad("pose." + f, f"from the pose: {f}={getattr(got, f)} expected {e}")
            # of a point
            for fast in (False, True):
                al = lane.along_lane_from_T2value(P, fast=fast)
                if abs(al - a) > tol:
                    bad("progress-of-point", f"along_lane_from_T2value(fast={fast}) {al}")
            if far["inside"] and a != L and bool(lane.is_inside_from_T2value(P)) != p["inside"]:
                bad("point-inside", f"is_inside_from_T2value {lane.is_inside_from_T2value(P)}")
    trs = []
    for _ in range(200 if chk.quick else 4000):
        lane, R, phi, place, borders, ws = arc(rng)
        off = lane.control_points[0].q.p
        tr = []
        L = lane.get_lane_length()
        for _ in range(6):
            f, lat, h = rng.uniform(0.01, 0.99), rng.uniform(-5, 5), rng.uniform(-3, 3)
            p, th = place(f, lat)
            lp = lane.lane_pose_from_SE2Transform(SE2Transform(p, th + h))
            near = lane.radius(lane.beta_from_along_lane(f * L))
            tr.append(dict(op="arc", f=fx(f), len=fx(L), along=fx(lp.along_lane), lat=fx(lat), got=fx(lp.lateral), dh=fx(wrap(lp.relative_heading - h)), r=fx(near),
                           beyond=int(len(set(ws)) > 1), inside=int(bool(lp.inside)), info=f"arc R {R} angle {phi}, share {f} offset {lat} heading {h}: {lp}"))
        trs.append(tr)
    for lane in recorded(chk, rng):
        trs.append(feet(lane, rng))
    check(chk, trs, "L02")
    chk.sample(dict(trace=trs[0][:2]))


def recorded(chk, rng):
    import os

    repo = os.environ.get("VF_REPO", "/repo")
    for f in sorted(glob.glob(repo + "/scenarios/testing/**/*.xml", recursive=True)):
        sc, _ = CommonRoadFileReader(f).open()
        ls = sc.lanelet_network.lanelets
        for l in rng.sample(ls, min(len(ls), 12 if chk.quick else 60)):
            lane = DgLanelet.from_commonroad_lanelet(l)
            cps = lane.control_points
            gentle = all(abs(wrap(b.q.theta - a.q.theta)) * 4 < np.linalg.norm(b.q.p - a.q.p) for a, b in zip(cps, cps[1:]))
            turn = sum(abs(wrap(b.q.theta - a.q.theta)) for a, b in zip(cps, cps[1:]))
            if gentle and turn < 1.5 and lane.get_lane_length() > 10:  # the foot of a point up to 3 m aside is unique
                chk.count("recorded lanes")
                yield lane


def feet(lane, rng):
    n = len(lane.control_points)
    off = lane.control_points[0].q.p
    tr = []
    L = lane.get_lane_length()
    for _ in range(5):
        b = rng.uniform(0.05, n - 1.05)
        lat = rng.uniform(-3, 3)
        q = lane.center_point(b)
        t, th = translation_angle_from_SE2(q)
        p = t + lat * np.array([-math.sin(th), math.cos(th)])
        lp = lane.lane_pose_from_SE2Transform(SE2Transform(p, th))
        c = lp.center_point
        beta = lane.beta_from_along_lane(lp.along_lane)
        k = min(max(int(math.floor(beta)), 0), n - 2)
        seg = lane.get_lane_lengths()
        lo, hi = (sum(seg[:k]), sum(seg[: k + 1]))
        if not 0 <= beta <= n - 1:
            lo, hi = min(lp.along_lane, L), max(lp.along_lane, 0)
        other = [lane.control_points[j].q.p for j in range(n) if abs(j - b) < 6] + [translation_angle_from_SE2(lane.center_point(b + d))[0] for d in (-1, -0.5, 0, 0.5, 1)]
        tr.append(dict(op="foot", p=p2(p - off), q=p2(c.p - off), c=fx(math.cos(c.theta)), s=fx(math.sin(c.theta)), lat=fx(lp.lateral), along=fx(lp.along_lane), lo=fx(lo),
                       hi=fx(hi), len=fx(L), other=[p2(o - off) for o in other], info=f"recorded lane of {n} points, length {L}: from parameter {b} offset {lat}: {lp}"))
    return tr
