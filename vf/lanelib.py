"""Lanes for spec/LaneMC.tla (straight ones, exact) and spec/LaneTrace.tla (curved ones)"""
import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from vf.impact import Frame
from vf.modelcases import fx


def r(q):
    return q[0] / q[1]


def wrap(a):
    return math.remainder(a, 2 * math.pi)


def straight(c, fr, rng):
    """the lane of a case; made from control points or from borders"""
    xs, rs = [r(x) for x in c["lane"]["x"]], [r(x) for x in c["lane"]["r"]]
    how = rng.randrange(3)
    if len(xs) > 2 and rng.random() < 0.3:  # another lane from and to the same places
        twin([(fr.pt((x - 0.3 * (x - y), 0)), fr.th) for x, y in zip(xs, [xs[0], *xs[:-2], xs[-1]])], [w + 0.5 for w in rs])
    if how == 0:
        return DgLanelet([LaneCtrPoint(SE2Transform(fr.pt((x, 0)), fr.th), w) for x, w in zip(xs, rs)])
    off = rng.choice([0.0, 0.0, rng.uniform(-0.4, 0.4)])  # the borders may lie unevenly about the centre line
    left = np.array([fr.pt((x, w + off)) for x, w in zip(xs, rs)])
    right = np.array([fr.pt((x, off - w)) for x, w in zip(xs, rs)])
    ctr = np.array([fr.pt((x, 0)) for x in xs])
    if how == 1:
        return DgLanelet.from_vertices(left_vertices=left, right_vertices=right, center_vertices=ctr)
    return DgLanelet.from_commonroad_lanelet(Lanelet(left_vertices=left, center_vertices=ctr, right_vertices=right, lanelet_id=7))


def twin(poses, ws):
    """a lane that is used; this does not matter to others"""
    lane = DgLanelet([LaneCtrPoint(SE2Transform(p, th), w) for (p, th), w in zip(poses, ws)])
    lane.along_lane_from_beta(1.5), lane.beta_from_along_lane(1.0), lane.lane_profile(), lane.get_lane_length(), lane.radius(0.7)
    lane.along_lane_from_T2value(poses[1][0])


def arc(rng, big=False):
    """an arc: (lane, radius, turning angle, place(f, lat) -> point and heading, borders)"""
    R = rng.uniform(8, 60)
    phi = rng.uniform(0.2, 2.0) * rng.choice([-1, 1])
    n = rng.randint(4, 14)
    sg = math.copysign(1, phi)
    fr = Frame(rng)
    fr.t = fr.t / 2

    def place(f, lat):
        a = phi * f
        p = np.array([R * math.sin(abs(a)), sg * R * (1 - math.cos(a))]) + lat * np.array([-math.sin(a), math.cos(a)])
        return fr.pt(p), a + fr.th

    ws = [rng.uniform(1, 3)] * n if rng.random() < 0.5 else [rng.uniform(1, 3) for _ in range(n)]
    fs = [k / (n - 1) for k in range(n)]
    left, right, ctr = (np.array([place(f, s * w)[0] for f, w in zip(fs, ws)]) for s in (1, -1, 0))
    if rng.random() < 0.3:
        A, B = ctr[0], ctr[-1]
        twin([(A + f * (B - A), math.atan2(*(B - A)[::-1])) for f in fs], ws)
    if rng.random() < 0.5:
        lane = DgLanelet([LaneCtrPoint(SE2Transform(place(f, 0)[0], place(f, 0)[1]), w) for f, w in zip(fs, ws)])
    else:
        lane = DgLanelet.from_vertices(left_vertices=left, right_vertices=right, center_vertices=ctr)
    return lane, R, phi, place, (left, right, ctr), ws


def p2(p):
    return [fx(p[0]), fx(p[1])]


def geometry_events(lane, rng, borders=None, seg=0.0):
    out = []
    n = len(lane.control_points)
    P = [c.q.p for c in lane.control_points]
    off = P[0]  # fixed point numbers stay small
    if borders is not None:
        for k in range(n):
            l, rr, c = (b[k] - off for b in borders)
            cp = lane.control_points[k]
            out.append(dict(op="control", left=p2(l), right=p2(rr), center=p2(c), q=p2(cp.q.p - off), c=fx(math.cos(cp.q.theta)), s=fx(math.sin(cp.q.theta)),
                            r=fx(cp.r), info=f"control point {k}: {cp}, borders {borders[0][k]} {borders[1][k]}"))
    L = lane.get_lane_length()
    out.append(dict(op="length", len=fx(L), arc=fx(seg), seg=[fx(s) for s in lane.get_lane_lengths()], p=[p2(q - off) for q in P], info=f"length {L}"))
    bs = sorted([rng.uniform(-4, n + 3) for _ in range(8)] + [0.0, float(n - 1), float(rng.randint(0, n - 1))])
    al = [lane.along_lane_from_beta(b) for b in bs]
    out.append(dict(op="inverse", b=[fx(b) for b in bs], a=[fx(a) for a in al], back=[fx(lane.beta_from_along_lane(a)) for a in al], info=f"{bs} {al}"))
    return out, off
