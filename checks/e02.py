"""Efficiency and comfort: scenes read by spec/Efficiency.tla, the search for a lane by spec/WalkMC.tla"""
import glob
import json
import math
import os
import signal
from copy import deepcopy
from decimal import Decimal
from fractions import Fraction as F

import numpy as np
from commonroad.common.file_reader import CommonRoadFileReader
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork

from dg_commons import DgSampledSequence
from dg_commons.eval.comfort import get_acc_rms, get_max_jerk
from dg_commons.eval.efficiency import (desired_lane_reached, distance_traveled, get_predecessor_dglane, get_predecessor_lane, get_successor_dglane, get_successor_lane,
                                         time_goal_lane_reached)
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.goals import RefLaneGoal
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.spacecraft import SpacecraftState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.scenarios.utils import dglane_from_position
from checks.e01 import q, rr
from geometry import translation_angle_from_SE2
from vf.impact import Frame
from vf.lanelib import wrap

TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (1, 0, 1), (0, 1, 1)]


def instants(rng, n, step=None):
    ts = [rng.choice([0, 0, 300])]
    while len(ts) < n:
        ts.append(ts[-1] + (step or rng.choice([50, 100, 100, 150, 250])))
    return ts


def cut(rng, ts):
    return rng.choice([-1, -1, rng.choice(ts), rng.randint(0, ts[-1] + 100)])


def scene(rng):
    kind = rng.choice(["walk", "jerk", "rms", "rms", "lane", "lane", "lane"])
    n = rng.randint(1, 7)
    if kind == "walk":
        legs = []
        for _ in range(n - 1):
            a, b, c = rng.choice(TRIPLES)
            if rng.random() < 0.5:
                a, b = b, a
            l = F(rng.choice([0, 1, 3, 7, 20]), 2)
            legs.append([q(l), q(F(a * rng.choice([1, -1]), c)), q(F(b * rng.choice([1, -1]), c))])
        return dict(kind=kind, legs=legs, t=instants(rng, n))
    if kind == "jerk":
        ts = instants(rng, n)
        return dict(kind=kind, log=[dict(t=t, a=q(F(rng.randint(-40, 40), 10))) for t in ts], **{"from": cut(rng, ts), "to": cut(rng, ts)})
    if kind == "rms":
        n = rng.randint(1, 20)
        ks = rng.sample(range(0, n // 2 + 1), min(n // 2 + 1, rng.choice([1, 1, 2, 3])))
        before, after = rng.choice([0, 0, 3]), rng.choice([0, 0, 2])
        return dict(kind=kind, n=n, harmonics=[dict(k=k, a=rng.randint(1, 3)) for k in ks], before=before, after=after)
    lens = [q(F(rng.randint(60, 300), 10)) for _ in range(rng.choice([1, 2, 3, 4, 4, 6, 8]))]
    goal = rng.randint(1, len(lens))
    L = rr(lens[goal - 1])
    first, last = -sum(rr(l) for l in lens[:goal - 1]), sum(rr(l) for l in lens[goal - 1:])
    w, ptol, htol, at = F(rng.choice([15, 18, 30]), 10), F(rng.choice([3, 8, 8, 25]), 10), F(rng.choice([3, 8, 8, 30]), 100), F(rng.choice([0, int(L * 5), int(L * 10)]), 10)
    # the row may bend where a lane ends: x and y are measured along the row and beside it
    bends = [0] * (len(lens) - 1)
    if rng.random() < 0.5:
        while True:
            bends = [rng.randint(-25, 25) for _ in bends]
            if all(abs(sum(bends[a:b])) <= 70 for a in range(len(lens)) for b in range(a, len(lens))):
                break
    ends = [first + sum((rr(l) for l in lens[:j]), F(0)) for j in range(1, len(lens))]
    log = []
    for t in instants(rng, n):
        while True:
            x = F(round(rng.uniform(first - 8, last + 8) * 10), 10) if rng.random() < 0.8 else at + F(rng.randint(-12, 12), 10)
            y, h = F(rng.randint(-40, 40) + rng.choice([1, -1]) * 5 * 0, 10) + F(1, 40), F(rng.randint(-12, 12), 100) + F(1, 300)
            if rng.random() < 0.15:
                h += F(3)
            out = x < first - F(1, 10) or x > last + F(1, 10)
            off = abs(y) > min(w, ptol) + F(1, 100) or abs(h) > htol + F(1, 500)
            slack = F(3, 1000) * F(L + abs(float(x)))
            over = max(F(0), abs(y) - w)
            close = abs((x - at) ** 2 + over ** 2 - 1) < F(1, 20) or abs(x - at) < slack + F(1, 100)
            # beyond the ends of the row only what is not aligned is settled
            beside_bend = any(abs(x - e) < 2 + F(6, 10) * abs(y) for e, d in zip(ends, bends) if d)
            if beside_bend or (out and not off) or min(abs(x - F(first)), abs(x - F(last))) < F(1, 5) + slack or close or abs(abs(y) - ptol) < F(1, 100) or abs(abs(y) - w) < F(1, 100) or abs(abs(h) - htol) < F(1, 500):
                continue
            break
        log.append(dict(t=t, x=q(x), y=q(y), h=q(h)))
    return dict(kind=kind, lens=lens, goal=goal, w=q(w), ptol=q(ptol), htol=q(htol), at=q(at), log=log, bends=bends)


class Row:
    """straight pieces one after the other; the piece of the goal lane begins at 0 and lies along the x axis"""

    def __init__(self, sc, fr):
        lens, g, self.fr = [float(rr(l)) for l in sc["lens"]], sc["goal"] - 1, fr
        self.th, self.start, self.along = [0.0] * len(lens), [np.zeros(2)] * len(lens), [0.0] * len(lens)
        bends = [math.radians(b) for b in sc["bends"]]
        for j in range(g + 1, len(lens)):
            self.th[j] = self.th[j - 1] + bends[j - 1]
            self.start[j] = self.start[j - 1] + lens[j - 1] * self.unit(j - 1)
            self.along[j] = self.along[j - 1] + lens[j - 1]
        for j in range(g - 1, -1, -1):
            self.th[j] = self.th[j + 1] - bends[j]
            self.start[j] = self.start[j + 1] - lens[j] * self.unit(j)
            self.along[j] = self.along[j + 1] - lens[j]

    def unit(self, j):
        return np.array([math.cos(self.th[j]), math.sin(self.th[j])])

    def piece(self, x):
        return max([0] + [j for j, a in enumerate(self.along) if a <= x])

    def pt(self, x, y=0.0, j=None):
        j = self.piece(x) if j is None else j
        u = self.unit(j)
        return self.fr.pt(self.start[j] + (float(x) - self.along[j]) * u + float(y) * np.array([-u[1], u[0]]))

    def heading(self, x):
        return self.fr.th + self.th[self.piece(x)]


def lanelet(row, xs, w, id, succ, pred, y=0.0, j=None):
    pts = np.array([row.pt(x, y, j) for x in xs])
    th = row.fr.th + row.th[j] if j is not None else np.array([row.heading(x) for x in xs])
    n = np.array([-np.sin(th), np.cos(th)]).T
    return Lanelet(left_vertices=pts + w * n, center_vertices=pts, right_vertices=pts - w * n, lanelet_id=id, successor=succ, predecessor=pred)


def network(row, rng, sc):
    """the row of lanes, and others that overlap or lie beside it"""
    lens, g, w = [rr(l) for l in sc["lens"]], sc["goal"] - 1, rr(sc["w"])
    ends = [-sum(lens[:g])]
    for l in lens:
        ends.append(ends[-1] + l)
    ids = rng.sample(range(100, 200), len(lens))
    net, rows = LaneletNetwork(), []
    others = rng.random() < 0.6
    for j, l in enumerate(lens):
        m = rng.choice([1, 2, 3])
        xs = list(np.linspace(ends[j], ends[j + 1], m + 1))
        succ = [ids[j + 1]] if j + 1 < len(lens) else []
        pred = [ids[j - 1]] if j else []
        if others:  # further successors and predecessors do not count
            succ = succ + [900] if succ else succ
            pred = pred + [901] if pred else pred
        rows.append(lanelet(row, xs, w, ids[j], succ, pred, j=j))
    if others:
        rows.append(lanelet(row, [ends[-1] + 50, ends[-1] + 60], w, 900, [], [], y=60))
        rows.append(lanelet(row, [ends[0] - 60, ends[0] - 50], w, 901, [], [], y=60))
        rows.append(lanelet(row, [ends[0] - 5] + ends[1:-1] + [ends[-1] + 5], w, rng.choice([1, 999]), [900], [901]))  # all along the row
        rows.append(lanelet(row, [ends[g], ends[g + 1]], w, rng.choice([2, 998]), [], [], y=2 * w, j=g))
    rng.shuffle(rows)
    for l in rows:
        net.add_lanelet(l)
    return net, DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(ids[g]))


def hung(*_):
    raise TimeoutError


def run(chk):
    rng = chk.rng
    # the search ends, and would not if it forgot where it had been
    chk.tlc("WalkMC", constants=dict(Lanes=3, Remember="TRUE"), spec="Spec", invariants=["Found"], properties=["Terminates"], workers=8)
    r = chk.tlc("WalkMC", constants=dict(Lanes=2, Remember="FALSE"), spec="Spec", properties=["Terminates"], allow=(0, 12, 13), count=False)
    assert r.rc == 13, r.out
    scenes = [scene(rng) for _ in range(900 if chk.quick else 12000)]
    inp = os.path.join(chk.scratch, "scenes.json")
    json.dump(scenes, open(inp, "w"))
    res = chk.emit("Efficiency", workers=8, env=dict(IN=inp), invariants=["NonNegative", "WeightsOk", "Emit"], properties=["Grows", "Once"])
    assert len(res) == len(scenes), (len(res), len(scenes))
    signal.signal(signal.SIGALRM, hung)
    for o in sorted(res, key=lambda o: o["i"]):
        judge(chk, rng, scenes[o["i"] - 1], o["acc"])
    corners(chk, rng)
    recorded(chk, rng)
    chk.sample(scenes[0])


def judge(chk, rng, sc, e):
    chk.traces += 1
    chk.count(sc["kind"])
    fr = Frame(rng)
    num = rng.choice([lambda t: t / 1000, lambda t: Decimal(t) / 1000])

    def bad(cl, what):
        chk.violation(f"E02.{cl}", f"{what}; {sc}", sc)

    if sc["kind"] == "walk":
        p, st = np.zeros(2), []
        size = rng.choice([1, 1, 1e-3, 30])  # creeping and racing
        for l, c, s in [None] + sc["legs"] if 0 else [([0, 1], [1, 1], [0, 1])] + sc["legs"]:
            p = p + size * rr(l) * np.array([rr(c), rr(s)])
            x, y = fr.pt(p)
            st.append(rng.choice([VehicleState(x=x, y=y, psi=rng.uniform(-3, 3), vx=1.0, delta=0.0), SpacecraftState(x=x, y=y, psi=1.0, vx=0.0, vy=2.0, dpsi=0.0)]))
        got = distance_traveled(DgSampledSequence[object]([num(t) for t in sc["t"]], st))
        if abs(got - size * rr(e)) > 1e-6 * size:
            bad("distance", f"distance {got}, expected {size * rr(e)} (in units of {size} m)")
    elif sc["kind"] == "jerk":
        seq = DgSampledSequence[VehicleCommands]([num(s["t"]) for s in sc["log"]], [VehicleCommands(acc=rr(s["a"]), ddelta=rng.uniform(-1, 1)) for s in sc["log"]])
        lim = tuple(None if sc[x] < 0 else num(sc[x]) for x in ("from", "to"))
        got = get_max_jerk(seq, lim) if lim != (None, None) or rng.random() < 0.5 else get_max_jerk(seq)
        if abs(got - rr(e)) > 1e-6 * (1 + rr(e)):
            bad("jerk", f"jerk {got}, expected {rr(e)}")
    elif sc["kind"] == "rms":
        n, b, a = sc["n"], sc["before"], sc["after"]
        j = np.arange(n)
        sig = np.zeros(n)
        for h in sc["harmonics"]:
            ph = 0 if h["k"] == 0 or 2 * h["k"] == n else rng.uniform(0, 6.3)
            sig = sig + h["a"] * np.cos(2 * math.pi * h["k"] * j / n + ph) * (rng.choice([1, -1]) if len(sc["harmonics"]) == 1 else 1)
        full = [rng.uniform(-5, 5) for _ in range(b)] + list(sig) + [rng.uniform(-5, 5) for _ in range(a)]
        seq = DgSampledSequence[VehicleCommands]([num(100 * t) for t in range(len(full))], [VehicleCommands(acc=float(x), ddelta=rng.uniform(-1, 1)) for x in full])
        lim = (num(100 * b) if b else None, num(100 * (b + n - 1)) if a else None)
        got = get_acc_rms(seq, lim) if lim != (None, None) or rng.random() < 0.5 else get_acc_rms(seq)
        exp = math.sqrt(e / 2e8)
        if not abs(got - exp) <= 2e-3 * exp:
            bad("rms", f"weighted acceleration {got}, expected {exp}")
    else:
        row = Row(sc, fr)
        net, lane = network(row, rng, sc)
        goal = RefLaneGoal(lane, rr(sc["at"]))
        ts = [num(s["t"]) for s in sc["log"]]
        mk = rng.choice([lambda **k: VehicleState(vx=3.0, delta=0.1, **k), lambda **k: PedestrianState(vx=1.0, **k)])
        st = []
        for s in sc["log"]:
            x, y = row.pt(rr(s["x"]), rr(s["y"]))
            st.append(mk(x=x, y=y, psi=row.heading(rr(s["x"])) + rr(s["h"]) + 2 * math.pi * rng.randint(-1, 1)))
        keep = deepcopy(st)
        signal.alarm(30)
        try:
            tol = (rr(sc["ptol"]), rr(sc["htol"]))
            got = time_goal_lane_reached(net, goal, DgSampledSequence[object](ts, st), *tol)
            if tol == (0.8, 0.08):
                got2 = time_goal_lane_reached(net, goal, DgSampledSequence[object](ts, st))
                if got2 != got:
                    bad("lane-reached", f"with the default tolerances {got2}, else {got}")
            last = bool(desired_lane_reached(net, goal, st[e - 1 if e else -1], *tol))
        except TimeoutError:
            bad("no-end", "no answer")
            return
        finally:
            signal.alarm(0)
        exp = float(ts[e - 1]) if e else None
        if got != exp or st != keep or last != bool(e):
            bad("lane-reached", f"reached at {got}, at that instant {last}, expected {exp}")


def turn(lane):
    return sum(abs(wrap(b.q.theta - a.q.theta)) for a, b in zip(lane.control_points, lane.control_points[1:]))


def recorded(chk, rng):
    """a gentle lane of a recorded network is reached on its first successor and predecessor, not on others"""
    repo = os.environ.get("VF_REPO", "/repo")
    for f in sorted(glob.glob(repo + "/scenarios/testing/**/*.xml", recursive=True)):
        net = CommonRoadFileReader(f).open()[0].lanelet_network
        ls = sorted(net.lanelets, key=lambda l: l.lanelet_id)
        for l in rng.sample(ls, min(len(ls), 30 if chk.quick else 200)):
            neighbours(chk, rng, net, l, os.path.basename(f))
            for nxt in (l.successor[:1], l.predecessor[:1]):
                if not nxt:
                    continue
                a, b = (DgLanelet.from_commonroad_lanelet(x) for x in (l, net.find_lanelet_by_id(nxt[0])))
                if min(a.get_lane_length(), b.get_lane_length()) < 6 or turn(a) + turn(b) > 0.7:
                    continue
                c = b.center_point(b.beta_from_along_lane(b.get_lane_length() / 2))
                t, th = translation_angle_from_SE2(c)
                side, dh = rng.choice([(0.0, 0.0), (0.5, 0.03), (-0.4, -0.05), (1.4, 0.0), (0.0, 0.3)])
                s = VehicleState(x=t[0] - side * math.sin(th), y=t[1] + side * math.cos(th), psi=th + dh, vx=1.0, delta=0.0)
                chk.evals += 1
                chk.count("recorded")
                signal.alarm(20)
                try:
                    got = bool(desired_lane_reached(net, RefLaneGoal(a, a.get_lane_length() / 2), s, 0.8, 0.08))
                    if got != (abs(side) < 0.8 and abs(dh) < 0.08):
                        chk.violation("E02.recorded", f"on lane {nxt} next to {l.lanelet_id} of {os.path.basename(f)}, {side} m aside, heading {dh} off: reached {got}")
                except TimeoutError:
                    chk.violation("E02.no-end", f"no answer on lane {nxt} next to {l.lanelet_id} of {os.path.basename(f)}")
                finally:
                    signal.alarm(0)


def neighbours(chk, rng, net, l, name):
    """the first lane after and before, and the lane that begins where somebody is"""
    dg = DgLanelet.from_commonroad_lanelet(l)
    for x in (l, dg):
        for what, ids, f, g in (("successor", l.successor, get_successor_lane, get_successor_dglane), ("predecessor", l.predecessor, get_predecessor_lane, get_predecessor_dglane)):
            chk.evals += 1
            got, dgot = f(net, x), g(net, x)
            if (None if got is None else got.lanelet_id) != (ids[0] if ids else None) or (dgot is None) != (not ids) \
                    or (ids and not np.allclose([p.q.p for p in dgot.control_points], net.find_lanelet_by_id(ids[0]).center_vertices)):
                chk.violation("E02.neighbour", f"{what} of {l.lanelet_id} in {name}: {got} expected {ids}")
    k = rng.randrange(len(l.center_vertices) - 1)
    p = (l.center_vertices[k] + l.center_vertices[k + 1]) / 2
    found = net.find_lanelet_by_position([p])[0]
    n = rng.randrange(len(found)) if found else 0
    if found:
        first = net.find_lanelet_by_id(found[n])
        got = dglane_from_position(p, net, init_lane_selection=n)
        pts = np.array([c.q.p for c in got.control_points])
        # the lane itself, then what follows it
        if not np.allclose(pts[: len(first.center_vertices)], first.center_vertices) or (first.successor and len(pts) <= len(first.center_vertices) and sum(np.linalg.norm(np.diff(pts, axis=0), axis=1)) < 100):
            chk.violation("E02.neighbour", f"lane from {p} in {name}: {pts[:3]}, expected {found[n]}")


def corners(chk, rng):
    """rows with a right angle and rings: wherever the pose is, there is an answer"""
    for _ in range(60 if chk.quick else 1000):
        th, p, rows = 0.0, np.zeros(2), []
        m = rng.choice([2, 3, 4])
        ring = m == 4 and rng.random() < 0.5
        for j in range(m):
            l = 12.0 if ring else rng.uniform(6, 15)
            d = np.array([math.cos(th), math.sin(th)])
            pts, nn = np.array([p, p + l / 2 * d, p + l * d]), np.array([-d[1], d[0]])
            rows.append(Lanelet(left_vertices=pts + 1.5 * nn, center_vertices=pts, right_vertices=pts - 1.5 * nn, lanelet_id=j + 1,
                                successor=[(j + 1) % m + 1] if j + 1 < m or ring else [], predecessor=[(j - 1) % m + 1] if j or ring else []))
            p, th = p + l * d, th + (math.pi / 2 if ring else rng.choice([math.pi / 2, -math.pi / 2, 1.0]))
        net = LaneletNetwork()
        for l in rows:
            net.add_lanelet(l)
        lane = DgLanelet.from_commonroad_lanelet(rng.choice(rows))
        goal = RefLaneGoal(lane, rng.uniform(0, lane.get_lane_length()))
        for _ in range(15):
            s = VehicleState(x=rng.uniform(-30, 30), y=rng.uniform(-30, 30), psi=rng.uniform(-3, 3), vx=0.0, delta=0.0)
            chk.evals += 1
            signal.alarm(20)
            try:
                desired_lane_reached(net, goal, s, 0.8, 0.08)
            except TimeoutError:
                chk.violation("E02.no-end", f"no answer for {s} and a row of lanes {[l.center_vertices.tolist() for l in rows]} goal lane {lane.control_points[0]}")
                return
            finally:
                signal.alarm(0)
