"""Pictures of collisions and logs: what spec/PictureMC.tla expects is looked for among the things drawn"""
import json
import math
import os
from dataclasses import fields
from decimal import Decimal

import numpy as np
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.patches import FancyArrow, Polygon as MplPolygon
from shapely.geometry import Point, Polygon, box

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.sim import CollisionReport, CollisionReportPlayer
from dg_commons.sim.collision_visualisation import plot_collision
from dg_commons.sim.log_visualisation import plot_player_log, plot_players_logs
from dg_commons.sim.simulator_structures import PlayerLog, SimLog

from checks.v01 import KINDS, LIGHTS, command, mod, rgb, same


def scene(rng):
    """a collision report and the log it belongs to"""
    T = sorted(rng.sample(range(0, 5000, 100), rng.randint(1, 4)))
    t = rng.choice([T[0], T[-1], T[-1] + 50, 10 * rng.randint(T[0] // 10, T[-1] // 10)])
    resolved = rng.random() < 0.8
    pt = [10 * rng.randint(-2000, 2000) for _ in range(2)]
    players = []
    for n in range(rng.choice([1, 2, 2, 2]) if not resolved else 2):
        env = n == 1 and rng.random() < 0.4
        log = [] if env else [dict(t=s, x=10 * rng.randint(-2000, 2000), y=10 * rng.randint(-2000, 2000)) for s in T]
        c = [rng.randint(-20000, 20000) for _ in range(2)]
        w = 0 if env else rng.choice([0, 20 * rng.randint(-100, 100)])
        v = lambda: [0, 0] if env else [rng.choice([0, rng.randint(-20000, 20000)]) for _ in range(2)]
        players.append(dict(resolved=resolved, log=log, centre=c, v=v(), va=v(), w=w, wa=0 if env else rng.randint(-3000, 3000), parts=rng.sample(["front", "back", "left", "right", "everywhere"], rng.randint(1, 2))))
    return dict(t=t, point=pt, players=players, normal=rng.randint(0, 359))


def run(chk):
    rng = chk.rng
    scenes = [scene(rng) for _ in range(40 if chk.quick else 400)]
    inp = os.path.join(chk.scratch, "scenes.json")
    json.dump(scenes, open(inp, "w"))
    res = chk.emit("PictureMC", workers=4, env=dict(IN=inp), invariants=["Turning", "Emit"])
    assert len(res) == len(scenes)
    for o in sorted(res, key=lambda o: o["i"]):
        chk.traces += 1
        collision(chk, rng, scenes[o["i"] - 1], o["pic"])
    for n in range(20 if chk.quick else 100):
        chk.traces += 1
        logs(chk, rng, n)
    chk.sample(dict(scene=scenes[0], picture=res[0]["pic"]))


r = lambda v: v[0] / v[1] / 1000


def arrow(p):
    """foot and direction of an arrow drawn"""
    v = p.get_path().transformed(p.get_patch_transform()).vertices
    return np.unique(np.round(v, 9), axis=0)


def is_arrow(v, foot, d, head):
    """the head of the arrow lies beyond the vector"""
    foot, d = np.array(foot), np.array(d)
    l = math.hypot(*d)
    if l < 1e-9:
        return len(v) == 0 or np.abs(v - foot).max() <= 10 * head
    e = d / l
    a, b = (v - foot) @ e, (v - foot) @ np.array([-e[1], e[0]])
    tip = a.max()
    return abs(a.min()) < 1e-6 and tip > l - 1e-6 and tip < l + 3.1 * head and abs(b[a.argmax()]) < 1e-6 and abs(b.max() + b.min()) < 1e-6 and np.abs(b).max() < 1.1 * head


def collision(chk, rng, sc, pic):
    log, players = SimLog(), {}
    seq = lambda ts, vs: DgSampledSequence[float]([Decimal(t) / 1000 for t in ts], vs)
    feet = []
    for n, p in enumerate(sc["players"]):
        name = PlayerName(rng.choice(["Ego", "P", "x"]) + str(n)) if p["log"] else PlayerName("Env")
        if p["log"]:
            kind = rng.choice(KINDS)
            ts = [s["t"] for s in p["log"]]
            log[name] = PlayerLog(states=seq(ts, [mod(kind, [s["x"], s["y"], 0, 0, 2000][: 5 if kind in ("rocket", "spaceship") else 4])[1] for s in p["log"]]),
                                  commands=seq(ts[:1], [command(kind, dict(acc=0, lights="none", f=[100, 100]))]), extra=seq([], []), info=seq(ts[:1], [0.0]))
        c = np.array(p["centre"]) / 1000
        foot = Polygon([c + (-2, -1), c + (2, -1), c + (2, 1), c + (-2, 1)])
        parts = [(w, Polygon([c + (k, 0), c + (k + 1, 0), c + (k + 1, 1.5)])) for k, w in enumerate(p["parts"])]
        rep = CollisionReportPlayer(locations=parts, at_fault=True, footprint=foot, velocity=(np.array(p["v"]) / 1000, p["w"] / 1000),
                                    velocity_after=(np.array(p["va"]) / 1000, p["wa"] / 1000), energy_delta=0.0)
        players[name] = rep if p["resolved"] else None
    bystander = PlayerName("bystander")
    log[bystander] = PlayerLog(states=seq([0], [mod("car", [0, 0, 0, 0])[1]]), commands=seq([0], [command("car", dict(acc=0, lights="none", f=[1]))]), extra=seq([], []), info=seq([0], [0.0]))
    a = math.radians(sc["normal"])
    nrm = np.array([math.cos(a), math.sin(a)])
    pt = np.array(sc["point"]) / 1000
    t = Decimal(sc["t"]) / 1000
    if sc["players"][0]["resolved"]:
        rep = CollisionReport(players=players, impact_point=Point(*pt), impact_normal=nrm, at_time=t)
    else:
        rep = CollisionReport.get_empty(players=players, at_time=t)
    keep = repr((rep, log))
    fig = plt.figure()

    def bad(cl, what):
        chk.violation(f"V02.{cl}", f"{what}; {sc}", sc)

    try:
        plot_collision(rep, log)
        fig.canvas.draw()
        ax = fig.axes[0]
    except Exception as e:
        bad("collision", f"the collision cannot be drawn: {e!r}")
        plt.close("all")
        return
    if repr((rep, log)) != keep:
        bad("operands", "report or log have changed")
    arrows = [(arrow(p), rgb(p.get_edgecolor())) for p in ax.patches if isinstance(p, FancyArrow)]
    fills = [p.get_xy() for p in ax.patches if isinstance(p, MplPolygon) and not isinstance(p, FancyArrow)]
    lines = [np.column_stack(l.get_data()) for l in ax.lines]
    texts = [(x.get_text(), x.get_position()) for x in ax.texts]

    def has_arrow(foot, d, col, what, head=0.05):
        chk.evals += 1
        if not any((col is None or c == rgb(col)) and is_arrow(v, foot, d, head) for v, c in arrows):
            bad("arrow", f"no arrow for {what} from {foot} along {d}")

    if sc["players"][0]["resolved"]:
        if not any(l.shape == (1, 2) and np.allclose(l, pt) for l in lines):
            bad("point", f"no point of impact at {pt}")
        has_arrow(pt, 0.2 * nrm, "red", "the normal", 0.1)
    for (name, pr), p, m in zip(players.items(), sc["players"], pic):
        if not m["resolved"]:
            continue
        o = tuple(r(v) for v in m["place"])
        has_arrow(o, [r(v) for v in m["before"]], "darkorange", f"velocity of {name} before")
        has_arrow(o, [r(v) for v in m["after"]], "seagreen", f"velocity of {name} afterwards")
        has_arrow(pt, [r(v) for v in m["impact"]], None, f"velocity of {name} at the point of impact")
        if not any(len(l) > 3 and same(l, pr.footprint.exterior.coords) for l in lines):
            bad("outline", f"no outline of {name}")
        if not any(s == str(name) and np.allclose(q, o, atol=1e-6) for s, q in texts):
            bad("name", f"{name} should be at {o}: {texts}")
        for w in m["spins"]:
            if not any(s == f"{w / 1000:.3f}" and math.dist(q, o) < 1 for s, q in texts):
                bad("spin", f"spin {w / 1000} of {name} at {o} not told: {texts}")
        for w, shape in pr.locations:
            if not any(same(f, shape.exterior.coords) for f in fills):
                bad("parts", f"{w} of {name} not marked")
            if not any(s == w and np.allclose(q, shape.centroid.coords[0]) for s, q in texts):
                bad("parts", f"{w} of {name} not named in its middle")
    if not sc["players"][0]["resolved"] and (arrows or fills):
        bad("collision", f"{len(arrows)} arrows for a collision without data")
    plt.close("all")


def logs(chk, rng, n):
    log = SimLog()
    seq = lambda ts, vs: DgSampledSequence[float]([Decimal(t) / 1000 for t in ts], vs)
    for j in range(rng.randint(1, 3)):
        kind = KINDS[(n + j) % len(KINDS)]
        ts = sorted(rng.sample(range(0, 9000, 100), rng.randint(1, 5)))
        tc = sorted(rng.sample(range(0, 9000, 50), rng.randint(1, 4)))
        log[PlayerName(f"P{j}")] = PlayerLog(
            states=seq(ts, [mod(kind, [rng.randint(-9000, 9000) for _ in range(4)] + [2500] * (kind in ("rocket", "spaceship")))[1] for _ in ts]),
            commands=seq(tc, [command(kind, dict(acc=rng.randint(-3000, 3000), lights=rng.choice(LIGHTS), f=[rng.randint(1, 2000)] * 2)) for _ in tc]), extra=seq([], []), info=seq(ts, [0.0] * len(ts)))
    only = None if rng.random() < 0.5 else set(rng.sample(sorted(log), rng.randint(0, len(log))))
    shown = [p for p in log if only is None or p in only]
    keep = repr(log)
    fig = plt.figure()
    given = rng.random() < 0.5
    other = plt.figure() if given and rng.random() < 0.5 else None  # the current figure is another one
    try:
        if len(log) == len(shown) == 1 and rng.random() < 0.5:
            plot_player_log(log[shown[0]], fig if given else None)
        else:
            plot_players_logs(log, fig if given else None, only)
    except Exception as e:
        chk.violation("V02.log", f"the log cannot be drawn: {e!r}; {keep}", keep)
        plt.close("all")
        return
    if repr(log) != keep:
        chk.violation("V02.operands", "the log has changed", keep)
    if other is not None and any(ax.lines for ax in other.axes):
        chk.violation("V02.log-figure", f"drawn in another figure than the given one; {keep}", keep)
    if len(shown) == 1 and any(len(ax.lines) > 1 for ax in fig.axes):
        chk.violation("V02.log", f"several quantities share a diagram; {keep}", keep)
    curves = [(l.get_label(), [float(t) for t in l.get_xdata(orig=True)], list(l.get_ydata(orig=True))) for ax in fig.axes for l in ax.lines]
    want = []
    for p in shown:
        for s in (log[p].states, log[p].commands):
            for f in fields(s.values[0]):
                want.append((f.name, [float(t) for t in s.timestamps], [getattr(v, f.name) for v in s.values]))
    key = lambda c: repr((c[0], c[1], [str(v) for v in c[2]]))
    if sorted(map(key, curves)) != sorted(map(key, want)):
        chk.violation("V02.log", f"curves {sorted(curves, key=key)} expected {sorted(want, key=key)}", keep)
    plt.close("all")
