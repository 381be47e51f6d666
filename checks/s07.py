"""Independence and reproducibility of runs: histories enumerated by spec/Runs.tla, each run compared with the behaviour that
spec/SimMC.tla gives for its configuration; plus histories of runs of the real models (spec/RunsTrace.tla)."""
import hashlib
import json
import math
import os
import random
import subprocess
import sys
from decimal import Decimal

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleModel

from dg_commons.sim.simulator import Simulator
from vf import simchecks, simrec, simstub, world


class Watch:
    """wraps an agent: what it was shown"""

    def __init__(self, inner, seen):
        self.inner, self.seen = inner, seen

    def __call__(self, obs):
        key = simrec.value_key
        self.seen.append((str(obs.time), [(str(p), key(o.state), [round(c, 9) for xy in o.occupancy.exterior.coords for c in xy])
                                          for p, o in sorted(obs.players.items())]))
        return self.inner(obs)


def configuration(seed):
    """a configuration from its seed; the seed of a twin is (seed of the other one, what differs)"""
    base, diff = seed if isinstance(seed, tuple) else (seed, None)
    ctx = world.random_context(random.Random(base), max_time=Decimal("0.8"), sensors=simchecks.random_sensor)
    if diff is not None:
        rng = random.Random(diff)
        what = rng.choice(["model", "model", "obstacles", "param", "mission", "agent", "order"])
        p = rng.choice(sorted(ctx.models))
        m = ctx.models[p]
        if what == "model":
            s = m.get_state()
            kind = rng.choice([k for k in world.KINDS if type(world.make_model(k, random.Random(0), 0, 0, 0, 0)) is not type(m)])
            ctx.models[p] = world.make_model(kind, rng, s.x, s.y, s.psi, 3.0)
            ctx.players[p] = world.ReactiveAgent(ctx.models[p], rng.random())
        elif what == "obstacles":
            obs = list(ctx.dg_scenario.static_obstacles)[1:]
            s = m.get_state()
            obs.append(world.StaticObstacle(world.random_polygon(rng, s.x * 0.4, s.y * 0.4, 1.0)))
            ctx.dg_scenario = world.DgScenario(static_obstacles=obs)
        elif what == "param":
            import dataclasses

            ctx.param = dataclasses.replace(ctx.param, dt_commands=ctx.param.dt * rng.choice([1, 2, 4]), sim_time_after_collision=Decimal("0.2"))
        elif what == "mission":
            s = m.get_state()
            ctx.missions = {**ctx.missions, p: world.PolygonGoal(world.random_polygon(rng, s.x * 0.6, s.y * 0.6, 3.0))}
        elif what == "agent":
            ctx.players[p] = world.ReactiveAgent(m, rng.random())
        else:
            ctx.players = dict(reversed(list(ctx.players.items())))
    rng = random.Random(repr(base))
    for p in sorted(ctx.models):  # some follow lanes
        m = ctx.models[p]
        if type(m) is VehicleModel and rng.random() < 0.6:
            s, w = m.get_state(), rng.uniform(1, 3)
            lane = [SE2Transform((s.x + d * math.cos(s.psi), s.y + d * math.sin(s.psi)), s.psi) for d in (-10, 5, 20, 60)]
            ctx.players[p] = LFAgent(DgLanelet([LaneCtrPoint(q, w) for q in lane]), m.vp, m.vg, return_extra=rng.random() < 0.5)
    seen = []
    for a in ctx.players.values():
        a.get_commands = Watch(a.get_commands, seen)
    return ctx, seen


class Alone:
    """outcomes of configurations, each in a process forked from one in which no simulation was ever run"""

    def __init__(self):
        import multiprocessing

        self.mp = multiprocessing.get_context("fork")
        self.here, there = self.mp.Pipe()
        self.server = self.mp.Process(target=self.serve, args=(there,))
        self.server.start()

    def serve(self, conn):
        while True:
            seed = conn.recv()
            if seed is None:
                return
            q, w = self.mp.Pipe()
            c = self.mp.Process(target=self.one, args=(seed, w))
            c.start()
            conn.send(q.recv())
            c.join()

    @staticmethod
    def one(seed, w):
        w.send(own(seed))

    def __call__(self, seed):
        self.here.send(seed)
        return self.here.recv()

    def close(self):
        self.here.send(None)
        self.server.join()


def elsewhere(seeds, hash_seed):
    """outcomes of configurations in a new interpreter with another seed of its hashes, as it is from one start to the next"""
    code = "import json, sys; from checks import s07; print(json.dumps([s07.own(s) for s in json.load(sys.stdin)]))"
    return subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], env={**os.environ, "PYTHONHASHSEED": str(hash_seed)}, text=True,
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL), json.dumps(seeds)


def own(seed):
    try:
        ctx, seen = configuration(tuple(seed) if isinstance(seed, list) else seed)
        Simulator().run(ctx)
        return dict(digest=digest(ctx, seen), ok=True)
    except Exception as e:
        return dict(digest=repr(e)[:80], ok=False)


def digest(ctx, seen=()):
    key = simrec.value_key
    out = [("t", str(ctx.time)), ("players", sorted(map(str, ctx.players))), ("first", str(ctx.first_collision_ts))]
    for p in sorted(ctx.log):
        lg = ctx.log[p]
        for sq in (lg.states, lg.commands, lg.extra):
            out.append((p, [str(t) for t in sq.timestamps], [key(v) for v in sq.values]))
        out.append((p, [str(t) for t in lg.info.timestamps]))
    for r in ctx.collision_reports:
        out.append((str(r.at_time), sorted(map(str, r.players)), key(r.impact_point), key(r.impact_normal)))
    out.append(list(seen))
    return hashlib.sha256(repr(out).encode()).hexdigest()[:16]


class Nester:
    """wraps an agent: starts another run while it is asked for its k-th command"""

    def __init__(self, inner, k, action):
        self.inner, self.k, self.action, self.n = inner, k, action, 0

    def __call__(self, obs):
        self.n += 1
        if self.n == self.k:
            self.action()
        return self.inner(obs)


def nest(ctx, k, action):
    p = next(iter(ctx.players))
    a = ctx.players[p]
    a.get_commands = Nester(a.get_commands, k, action)


def tree(hist):
    """start/finish list -> nested list of (sim, cfg, id, children)"""
    roots, st = [], []
    for h in hist:
        if h["op"] == "start":
            node = (h["sim"], h["cfg"], h["id"], [])
            (st[-1][3] if st else roots).append(node)
            st.append(node)
        else:
            st.pop()
    return roots


def compare(chk, b, ctx, agents, tick, hist, what):
    tk = lambda t: t / tick
    ok = True

    def want(got, exp, msg):
        if got != exp:
            chk.violation("S07.run-depends-only-on-its-configuration", f"{msg}: got {got} expected {exp}; history {hist}",
                          dict(history=hist, config=b["c"]))

    want(tk(ctx.time), b["t"], "end instant")
    want(sorted(ctx.players), sorted(b["active"]), "players left")
    want(sorted(ctx.log), sorted(b["c"]["players"]), "players logged")
    for p in agents:
        want([tk(t) for t, _ in agents[p].asks], [x[0] for x in b["logC"][p]], f"request instants of {p}")
        for (t, o), (te, oe) in zip(agents[p].asks, b["obs"][p]):
            want({q: s["x"] for q, s in o.items()}, {q: s["x"] for q, s in oe.items()}, f"observation of {p} at {te}")
        if p in ctx.log:
            lg = ctx.log[p]
            want([[tk(t), v.d()] for t, v in zip(lg.states.timestamps, lg.states.values)], b["logS"][p], f"states of {p}")
            want([[tk(t), v] for t, v in zip(lg.commands.timestamps, lg.commands.values)], b["logC"][p], f"commands of {p}")
    want(sorted((tk(r.at_time), sorted(map(str, r.players))) for r in ctx.collision_reports),
         sorted((r["t"], sorted(r["ps"])) for r in b["reps"]), "reports")


def run(chk):
    alone = Alone()  # before anything was simulated in this process
    try:
        histories(chk, alone)
    finally:
        alone.close()


def histories(chk, alone):
    behs = []
    for fam in ("sched", "goal", "coll"):
        bs = chk.emit("SimMC", constants={"Family": f'"{fam}"'}, label=f"SimMC/{fam}", workers=6, invariants=["Emit"])
        bs.sort(key=repr)
        behs.append(bs)
    hists = chk.emit("Runs", constants=dict(NSims=2, NCfgs=3, NRuns=3, MaxNest=2), invariants=["Reproducible", "WellNested", "Emit"])
    hists.sort(key=repr)
    if chk.quick:
        chk.rng.shuffle(hists)
        hists = hists[:400]
    for h in hists:
        tick = Decimal(chk.rng.choice(["0.05", "0.1", "1"]))
        cfgs = {k: chk.rng.choice([b for b in behs[k - 1]]) for k in (1, 2, 3)}
        sims = {1: Simulator(), 2: Simulator()}

        def go(node):
            sim, cfg, rid, kids = node
            b = cfgs[cfg]
            ctx, agents = simstub.build(b["c"], tick, sorted(b["c"]["players"]))
            if kids:
                nreq = len(b["logC"][sorted(b["c"]["players"])[0]])
                nest(ctx, chk.rng.randint(1, max(1, min(3, nreq))), lambda: [go(k) for k in kids])
            try:
                sims[sim].run(ctx)
            except Exception as e:
                import traceback

                if isinstance(e, AssertionError) and "/verif/" in traceback.format_exc().splitlines()[-3]:
                    raise
                chk.violation("S07.run-completes", f"{type(e).__name__} {e} {traceback.format_exc()[-300:]}; history {h}", dict(history=h))
                return
            compare(chk, b, ctx, agents, tick, h, rid)

        for node in tree(h):
            go(node)
        chk.traces += 1
    chk.sample(dict(kind="history of runs", history=hists[0]))

    # histories of runs of the real models; every configuration is rebuilt from its seed. The first entries of a history are the
    # outcomes of its configurations in a process of their own, in which nothing ever ran before.
    traces, configs = [], []
    for i in range(16 if chk.quick else 120):
        seeds = [chk.rng.random() for _ in range(2)]
        if chk.rng.random() < 0.6:
            seeds[1] = (seeds[0], chk.rng.random())  # a twin: alike in almost everything
        shared = Simulator()
        tr = []
        configs.append(seeds)

        def once(cfg, sim, inner=None):
            ctx, seen = configuration(seeds[cfg])
            if inner is not None:
                nest(ctx, 2, inner)
            try:
                sim.run(ctx)
                tr.append(dict(cfg=cfg, digest=digest(ctx, seen), ok=True))
            except Exception as e:
                tr.append(dict(cfg=cfg, digest=repr(e)[:80], ok=False))

        for cfg in (0, 1):
            tr.append(dict(cfg=cfg, **alone(seeds[cfg])))
        once(0, Simulator())
        once(1, Simulator())
        for _ in range(3):
            k = chk.rng.randint(0, 1)
            once(k, shared if chk.rng.random() < 0.7 else Simulator(),
                 (lambda j=chk.rng.randint(0, 1): once(j, Simulator())) if chk.rng.random() < 0.5 else None)
        traces.append(tr)
    # the last entries: the outcomes in other interpreters
    started = [elsewhere([s for seeds in configs for s in seeds], h) for h in (chk.rng.randint(1, 10**6) for _ in range(2 if chk.quick else 5))]
    for proc, text in started:
        out = json.loads(proc.communicate(text)[0])
        for tr in traces:
            tr += [dict(cfg=cfg, **out.pop(0)) for cfg in (0, 1)]
    for i, bs in chk.validate("RunsTrace", traces).items():
        for cl, pos in bs:
            chk.violation(cl, f"run {pos} of history {traces[i]}", traces[i])
