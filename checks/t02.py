"""Graphs of plans: histories of spec/GraphMC.tla"""
from decimal import Decimal

from dg_commons.planning.trajectory import Trajectory, TrajectoryGraph
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState


def run(chk):
    rng = chk.rng
    cases = chk.emit("GraphMC", constants=dict(Len0=3, Kinds=2), workers=8, label="GraphMC exhaustive",
                     invariants=["GenUpper", "GenOfTree", "NoOrphans", "Chains", "Emit"], properties=["GenStable"])
    cases.sort(key=repr)
    if chk.quick:
        cases = rng.sample(cases, min(1200, len(cases)))
    for n, kinds in ((4, 2), (6, 2), (8, 2), (9, 3)):
        more = chk.emit("GraphMC", constants=dict(Len0=n, Kinds=kinds), workers=1, label=f"GraphMC simulated {n}", spec="Spec",
                          invariants=["GenUpper", "GenOfTree", "NoOrphans", "Chains", "Emit"], simulate=60 if chk.quick else 2000, depth=n + 1)
        more.sort(key=repr)
        cases += rng.sample(more, min(len(more), 500 if chk.quick else 8000))
    for c in cases:
        chk.traces += 1
        case(chk, rng, c)
    chk.sample(cases[-1])


def case(chk, rng, c):
    dec = rng.random() < 0.5
    unit = Decimal("0.1") if dec else 0.25
    psi = rng.uniform(-3, 3)
    parked = rng.random() < 0.3  # the states of a node may come again later
    fine = rng.randrange(3)

    def st(p):
        if parked:
            return VehicleState(x=1.0, y=float(p[1]), psi=psi, vx=0.0, delta=0.0)
        return VehicleState(x=float(p[0] * 3), y=float(p[1] - 2 * p[0]), psi=psi, vx=1.0 + p[1], delta=0.1 * p[0])

    def node(p):
        return (p[0] * unit, st(p))

    def transition(e, k):
        """the samples of edge e as added at step k: ends and one sample in between, none of them equal to a node"""
        (u, v) = e
        ts = [u[0] * unit, u[0] * unit + (v[0] - u[0]) * unit / 2, v[0] * unit]
        return [(t, VehicleState(x=100.0 * k + j, y=1.0, psi=0.0, vx=0.0, delta=0.0)) for j, t in enumerate(ts)]

    def between(u, v):
        """the states handed over may be sampled finer than the nodes"""
        dt = (v[0] - u[0]) * unit / (fine + 1)
        return [(u[0] * unit + j * dt, VehicleState(x=-float(j), y=7.0, psi=0.0, vx=3.0, delta=0.0)) for j in range(1, fine + 1)]

    def cmds(k):
        return VehicleCommands(acc=float(k), ddelta=-0.5 * k)

    def traj(samples):
        return Trajectory(timestamps=[t for t, _ in samples], values=[s for _, s in samples])

    def bad(cl, what):
        chk.violation(f"T02.{cl}", f"{what}; history {c['h']}", c)

    g = TrajectoryGraph()
    g.add_node(node((0, 0)), gen=0)
    by_step = {}
    for k, a in enumerate(c["h"], 1):
        u, v = a["e"]
        if a["op"] == "node":
            g.add_node(node(u), gen=7)
            continue
        by_step[k] = (u, v)
        refused = False
        try:
            g.add_edge(states=traj([node(u), *between(u, v), node(v)]), transition=traj(transition((u, v), k)), commands=cmds(k))
        except ValueError:
            refused = True
        if refused == a["ok"]:
            bad("unknown-parent", f"edge {u}->{v} {'refused' if refused else 'accepted'}")
            return
    exp = {node(x): n for x, n in c["gen"]}
    got = {n: d.get("gen") for n, d in g.nodes(data=True)}
    if got != exp:
        bad("nodes", f"nodes and generations {got}")
        return
    expe = {(node(u), node(v)): k for (u, v), k in c["lab"]}
    if set(g.edges) != set(expe):
        bad("edges", f"edges {list(g.edges)}")
        return
    for (u, v), k in expe.items():
        ed = g.get_edge_data(u, v)
        if ed["commands"] != cmds(k) or ed["transition"] != traj(transition(by_step[k], k)):
            bad("edges", f"data of edge {u}->{v}: {ed}")

    def along(path):
        return [node(p) for p in path]

    def spliced(labels):
        out = []
        for k in labels:
            tr = transition(by_step[k], k)
            out += tr if not out else tr[1:]
        return out

    def answer(f):
        try:
            r = f()
            return list(zip(r.timestamps, r.values))
        except ValueError:
            return None

    answers = {}
    for u, v, paths in c["pairs"]:
        chk.evals += 1
        qs = dict(trajectory=(lambda: g.get_trajectory(source=node(u), target=node(v)), [along(p) for p, _ in paths]))
        if u != v:
            qs["transition"] = (lambda: g.get_transition(source=node(u), target=node(v)), [spliced(l) for _, l in paths])
            qs["commands"] = (lambda: g.commands_on_trajectory(traj([node(u), node(v)])),
                              [[(p[i][0] * unit, cmds(k)) for i, k in enumerate(l)] for p, l in paths])
        for name, (f, ok) in qs.items():
            if name == "commands" and u[0] >= v[0]:
                continue
            r = answer(f)
            if (r not in ok) if ok else (r is not None):
                bad(name, f"from {u} to {v}: {r}, expected one of {ok}")
            answers[name, tuple(u), tuple(v)] = ok
    # the commands of each chain, whatever shorter ones there are, given its nodes or more samples than these
    for p, l in c["all"] if len(c["all"]) < 40 else rng.sample(c["all"], 40):
        if len(p) > 1:
            chk.evals += 1
            samples = along(p[:1])
            for u, v in zip(p, p[1:]):
                samples += between(u, v) + along([v])
            r = answer(lambda: g.commands_on_trajectory(traj(samples)))
            if r != [(p[i][0] * unit, cmds(k)) for i, k in enumerate(l)]:
                bad("commands-along", f"along {p}: {r}, expected those of the additions {l}")
    miss = node((0, 5))
    known = node((0, 0))
    for f in (lambda: g.get_trajectory(source=miss, target=known), lambda: g.get_transition(source=known, target=miss)):
        if answer(f) is not None:
            bad("unknown-node", "a trajectory to a node that is not there")
    # all of them
    if len(c["roots"]) == 1 and len(c["leaves"]) >= 1:
        r = tuple(c["roots"][0])
        for name, f in (("trajectory", g.get_all_trajectories), ("transition", g.get_all_transitions)):
            got = [list(zip(t.timestamps, t.values)) for t in f()]
            oks = [answers[name, r, tuple(l)] if (name, r, tuple(l)) in answers else [[]] for l in c["leaves"]]
            if len(got) != len(oks) or not all(any(x in ok for x in got) for ok in oks):
                bad(f"all-{name}", f"{got}, expected one of each of {oks}")
