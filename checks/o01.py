"""Delay and ghost filters: every case of spec/FilterMC.tla"""
from copy import deepcopy
from decimal import Decimal

import numpy as np
from shapely.geometry import Point

from dg_commons import PlayerName, fd
from dg_commons.sim import PlayerObservations, SimObservations
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, GhostObsFilter, IdObsFilter
from vf.impact import Frame


def run(chk):
    rng = chk.rng
    cases = chk.emit("FilterMC", constants=dict(Size=1 if chk.quick else 2), workers=8,
                     invariants=["Self", "Real", "Order", "Latency", "GhostGone", "Emit"])
    cases.sort(key=repr)
    scen = DgScenario()
    for c in cases:
        x, fr = c["x"], Frame(rng)
        if exact := rng.random() < 0.3:  # where distances are whole numbers of metres; as far as the limit is not further
            fr.th, fr.R, fr.t = 0.0, np.eye(2), np.zeros(2)
        unit = Decimal(rng.choice(["0.1", "1", "0.05"]))
        f = IdObsFilter()
        for y in x["st"]:
            f = DelayedObsFilter(f, y["l"] * unit) if y["k"] == "delay" else GhostObsFilter(f, PlayerName(y["who"]), *([y["l"] if exact else y["l"] + 1e-6] if y["l"] else rng.choice([[], [0]])))
        # sometimes the filters are used in a second run, too: nothing of the first one is left
        for z in range(2 if len(c["out"]) > 1 and rng.random() < 0.3 else 1):
            one(chk, scen, fr, unit, c, f, z)
        chk.traces += 1
    chk.sample(dict(kind="filter stack", case=cases[5]["x"], out=cases[5]["out"]))


def one(chk, scen, fr, unit, c, f, z):
    """one run; its states are told from those of another one by z"""
    x = c["x"]
    snaps = []
    for k, t in enumerate(c["clock"]):
        pl = {}
        for p, xy in c["snap"][k].items():
            w = fr.pt(xy)
            st = VehicleState(w[0], w[1], 0.1 * k, 1.0 + k + 20 * z, 0) if p != "B" else PedestrianState(w[0], w[1], 0.2 * k, 0.5 * k + 20 * z)
            pl[PlayerName(p)] = PlayerObservations(state=st, occupancy=Point(w).buffer(1))
        snaps.append(SimObservations(players=fd(pl), time=t * unit))
    keep = deepcopy(snaps)
    for k, e in enumerate(c["out"]):
        o = f.sense(scen, snaps[k], PlayerName(x["pov"]))
        chk.evals += 1

        def bad(cl, what):
            chk.violation(f"O01.{cl}", f"filters {x['st']} of {x['pov']} at instant {c['clock'][k]} of {c['clock']}: {what}", c)

        src = keep[e["src"] - 1]
        if sorted(map(str, o.players)) != sorted(e["pl"]):
            bad("players", f"shows {sorted(o.players)} expected {e['pl']}")
        for p, po in o.players.items():
            if p in src.players and (po.state != src.players[p].state or not po.occupancy.equals(src.players[p].occupancy)):
                bad("latency", f"shows {p} as {po.state}, expected the observation of instant {c['clock'][e['src'] - 1]}")
        if e["exact"] and o.time != c["clock"][k] * unit:
            bad("time", f"time {o.time}")
    if any(a.players != b.players or a.time != b.time for a, b in zip(snaps, keep)):
        chk.violation("O01.untouched", f"filters {x['st']} modified the observations they were given", c)
