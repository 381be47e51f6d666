"""The two bindings of spec/Sim.tla to the real Simulator, shared by the checks S01..S06 and S08."""
from decimal import Decimal

from dg_commons.sim.simulator import Simulator
from vf import env, simstub, simrec, world

FAMILIES = ("sched", "goal", "coll", "three", "wall")
INV = ("Cadence Held Simultaneity ObservedIsLogged LogContiguous LogWithinHorizon CommandsAtLoggedStates FirstFulfilment "
       "NeverObservedAfterLeaving NeverReportedAfterLeaving EndsExactly ReportsUnique FirstCollision ReportsOrdered CollidedCoast Emit").split()


def mine(clause, clauses):
    """does the clause belong to the property under check (`clauses`: property prefixes and single clauses)"""
    return clause.split(".")[0] in clauses or clause in clauses or clause.endswith("run-completes")


def replay(chk, families, clauses, liveness=()):
    """Exhaustive TLC run of SimMC per family, every complete behaviour replayed in the real simulator.
    clauses: which of the compared aspects belong to the property under check."""
    for fam in families:
        behs = chk.emit("SimMC", constants={"Family": f'"{fam}"'}, label=f"SimMC/{fam}", workers=6, invariants=INV,
                        properties=["Terminates_"] if fam in liveness else ())
        if not behs:
            raise RuntimeError("no behaviours")
        for b in behs:
            diffs = replay_one(chk, b)
            chk.traces += 1
            chk.count(f"replayed/{fam}")
            for cl, what in diffs:
                if mine(cl, clauses):
                    chk.violation(cl, what, dict(config=b["c"], expected=b))
        chk.sample(dict(kind="replayed behaviour", family=fam, config=behs[0]["c"], commands=behs[0]["logC"]))


def replay_one(chk, b):
    c = b["c"]
    tick = Decimal(chk.rng.choice(["0.05", "0.1", "1", "0.013", "0.025"]))
    order = sorted(c["players"])
    if len(order) < 3 and chk.rng.random() < 0.5:
        order.reverse()
    ctx, agents = simstub.build(c, tick, order)
    out = []

    def want(cl, got, exp, what):
        if got != exp:
            out.append((cl, f"{what}: got {got} expected {exp} (tick {tick}, order {order}, config {c})"))

    try:
        Simulator().run(ctx)
    except Exception as e:  # a run of a legitimate configuration must not fail, whatever the property looked at
        import traceback

        return [(f"{chk.pid}.run-completes", f"{type(e).__name__}: {e}: {traceback.format_exc()[-600:]} config {c}")]
    tk = lambda t: t / tick
    for p in order:
        a, lg = agents[p], ctx.log.get(p)
        want("S08.init-once", a.inits, 1, f"episode initialisations of {p}")
        exp_t = [x[0] for x in b["logC"][p]]
        want("S01.request-instants", [tk(t) for t, _ in a.asks], exp_t, f"request instants of {p}")
        got_obs = {tk(t): o for t, o in a.asks}
        for t, o in b["obs"][p]:
            if t in got_obs:
                g = {q: dict(x=s["x"], v=s["v"], col=s["col"]) for q, s in got_obs[t].items()}
                want("S02.observed-players", sorted(g), sorted(o), f"players observed by {p} at {t}")
                want("S02.snapshot", {q: g[q] for q in g if q in o}, {q: o[q] for q in o if q in g}, f"observation of {p} at {t}")
        if lg is None:
            want("S03.log-of-every-player", None, "a log", f"log of {p}")
            continue
        st = [[tk(t), v.d()] for t, v in zip(lg.states.timestamps, lg.states.values)]
        want("S03.states-instants", [x[0] for x in st], [x[0] for x in b["logS"][p]], f"instants of the states of {p}")
        want("S03.states", st, b["logS"][p], f"states of {p}")
        want("S03.commands", [[tk(t), v] for t, v in zip(lg.commands.timestamps, lg.commands.values)], b["logC"][p], f"commands of {p}")
        want("S03.timing", [tk(t) for t in lg.info.timestamps], exp_t, f"instants of the computation times of {p}")
        want("S01.command-applied", [x[1]["x"] for x in st], [x[1]["x"] for x in b["logS"][p]], f"positions of {p} (held command)")
    want("S04.remaining", sorted(ctx.players), sorted(b["active"]), "players left")
    for p in order:
        if p not in b["active"] and p in ctx.log:
            want("S04.leaves-when-fulfilled", tk(ctx.log[p].states.get_end()), b["logS"][p][-1][0], f"instant at which {p} leaves")
            want("S04.final-state", ctx.log[p].states.values[-1].d(), b["logS"][p][-1][1], f"last state of {p}")
    want("S05.end-instant", tk(ctx.time), b["t"], "instant of termination")
    reps = sorted((tk(r.at_time), sorted(map(str, r.players))) for r in ctx.collision_reports)
    exp = sorted((r["t"], sorted(r["ps"])) for r in b["reps"])
    want("S06.reports", reps, exp, "collision reports")
    first = -1 if not Decimal(ctx.first_collision_ts).is_finite() else tk(ctx.first_collision_ts)
    want("S06.first-collision", first, b["firstCol"], "instant of the first collision")
    return out


def record(chk, n, clauses, vandal=False, **kw):
    """n random runs of the real simulator on real models, validated against SimTrace"""
    traces, meta = [], []
    contacts = 0
    for i in range(n):
        k = {key: (v(i) if callable(v) and key not in ("sensors",) else v) for key, v in kw.items()}
        ctx = world.random_context(chk.rng, **k)
        desc = dict(models={str(p): type(m).__name__ for p, m in ctx.models.items()}, param=str(ctx.param),
                    missions=[str(p) for p in ctx.missions], obstacles=len(ctx.dg_scenario.static_obstacles))
        rec = simrec.Recorder(ctx, vandal=vandal and i % 4 != 0)
        try:
            Simulator().run(ctx)
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, AssertionError) and not any("/dg_commons/" in f.filename for f in tb):
                raise
            chk.violation(f"{chk.pid}.run-completes", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}", desc)
            continue
        t = rec.trace()
        contacts += rec.contacts
        traces.append(t)
        meta.append(desc)
        chk.count("events", len(t["ev"]))
    bad = chk.validate("SimTrace", traces, workers=6, label="SimTrace")
    chk.count("contacts between bodies", contacts)
    chk.count("collision reports", sum(1 for t in traces for e in t["ev"] if e["k"] == "rep"))
    chk.count("players that completed their mission", sum(len(t["c"]["players"]) - len(t["ev"][-1]["act"]) for t in traces))
    for i, bs in bad.items():
        for cl, pos in bs:
            if mine(cl, clauses):
                ev = traces[i]["ev"]
                chk.violation(cl, f"event {pos} of a recorded run: {ev[pos - 1] if 0 < pos <= len(ev) else ''} {meta[i]}",
                              dict(trace=traces[i], meta=meta[i]))
    if traces:
        chk.sample(dict(kind="recorded run", setup=meta[0], first_events=traces[0]["ev"][:4]))
    return traces, bad


def random_sensor(rng, p):
    from dg_commons import PlayerName
    from dg_commons.perception.sensor import VisRangeSensor, FullRangeSensor
    from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter

    fov = env.install()
    base = rng.choice([IdObsFilter, (lambda: FovObsFilter(FullRangeSensor(range=rng.uniform(3, 12)))) if fov else IdObsFilter,
                       (lambda: FovObsFilter(VisRangeSensor(range=rng.uniform(3, 12)))) if fov else IdObsFilter])()
    k = rng.randint(0, 3)
    if k in (1, 3):
        base = GhostObsFilter(base, PlayerName("P0"), further_than=rng.choice([0, 3.0, 7.0]))
    if k in (2, 3):
        base = DelayedObsFilter(base, Decimal(rng.choice(["0", "0.1", "0.3"])))
    return base
