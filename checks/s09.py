"""Reading a log back: spec/LogMC.tla; plus logs of real runs, read back at and between the logged instants (spec/SeqTrace.tla)."""
import random
from decimal import Decimal

from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.simulator import Simulator
from dg_commons.sim.simulator_structures import PlayerLog, PlayerLogger, SimLog
from vf import simchecks, simrec, world
from vf.seqlib import *


def run(chk):
    rng = chk.rng
    cases = chk.emit("LogMC", constants=dict(MaxT=4 if chk.quick else 5), invariants=["Consistent", "Emit"], workers=6)
    cases.sort(key=repr)
    if chk.quick and len(cases) > 4000:
        rng.shuffle(cases)
        cases = cases[:4000]
    for c in cases:
        clk = Clock(rng)
        l = c["l"]
        st = Val(rng, ["state"])
        cmd = lambda v: VehicleCommands(acc=float(v), ddelta=-float(v))
        lg = PlayerLogger()
        for t, v in zip(l["s"]["ts"], l["s"]["vs"]):
            lg.states.add(clk(t), st(v))
        for t, v in zip(l["c"]["ts"], l["c"]["vs"]):
            lg.commands.add(clk(t), cmd(v))
            lg.info.add(clk(t), v / 7)
        for t, v in zip(l["e"]["ts"], l["e"]["vs"]):
            lg.extra.add(clk(t), ("extra", v))
        pl = lg.as_sequence()
        log = SimLog()
        log["A"] = pl
        other = PlayerLogger()
        for t in range(c["m"][0], c["m"][1] + 1):
            other.states.add(clk(t), st(t))
            other.commands.add(clk(t), cmd(t))
            other.info.add(clk(t), 0.0)
        log["B"] = other.as_sequence()

        def bad(cl, what):
            chk.violation("S09." + cl, f"{what} on {c['l']} and {c['m']} ({clk.kind})", c)

        if log.get_init_time() != clk(c["first"]) or log.get_last_time() != clk(c["last"]):
            bad("span", f"log spans {log.get_init_time()}..{log.get_last_time()}")
        for q, e in c["at"]:
            t = clk(fr(q)) if not (clk.kind == "int" and q[1] != 1) else clk.off + fr(q) * clk.unit
            ents = [pl.at_interp(t)]
            if fr(q) >= c["m"][0]:
                al = log.at_interp(t)
                if set(al) != {"A", "B"}:
                    bad("entry", f"players {set(al)} at {q}")
                if "A" in al:
                    ents.append(al["A"])
            for en in ents:
                chk.evals += 1
                if not same(st.num(en.state), fr(e["s"]), 1e-6):
                    bad("state-interpolated", f"state at {q}: {en.state} expected {e['s']}")
                if (en.commands.acc, en.commands.ddelta) != (e["c"], -e["c"]) or not same(en.info, e["c"] / 7):
                    bad("commands-held", f"commands at {q}: {en.commands} info {en.info} expected {e['c']}")
                if en.extra != (None if e["e"] == -999 else ("extra", e["e"])):
                    bad("extra-held", f"extra at {q}: {en.extra} expected {e['e']}")
        try:
            log["C"] = dict(states=1)
            bad("entry", "anything can be stored in a log")
        except ZValueError:
            pass
        chk.traces += 1
    chk.sample(dict(kind="player log and expected entries", case=cases[0]))

    # logs of real runs, read back
    trs = []
    for i in range(6 if chk.quick else 60):
        ctx = world.random_context(random.Random(rng.random()), max_time=Decimal("1"))
        Simulator().run(ctx)
        for p, lg in ctx.log.items():
            ts = [Decimal(t) for t in lg.states.timestamps]
            unit = Decimal("0.001")
            ints = [int(t / unit) for t in ts]
            cts = [int(t / unit) for t in lg.commands.timestamps]
            tr = []
            for _ in range(12):
                t = rng.randint(ints[0], ints[-1] + 50)
                if rng.random() < 0.3:
                    t = rng.choice(ints)
                en = ctx.log.at_interp(t * unit).get(p) if all(t >= int(l.states.get_start() / unit) for l in ctx.log.values()) else lg.at_interp(t * unit)
                if en is None:
                    chk.violation("S09.entry", f"{p} is missing at {t}ms", None)
                    continue
                # which logged commands does the entry hold (by position), and is the state on the segment between its neighbours
                ks = [k for k, v in enumerate(lg.commands.values) if v is en.commands]
                k = max([j for j in ks if cts[j] <= t], default=max(ks, default=-7))
                tr.append(dict(op="prev", s=dict(ts=cts, vs=list(range(len(cts)))), q=[t, 1], a=0, b=0, undef=False, r=[k, 1]))
                j = max([j for j in range(len(ints)) if ints[j] <= t], default=0)
                v0, v1 = lg.states.values[j], lg.states.values[min(j + 1, len(ints) - 1)]
                x0, x1, xe = (simrec.numbers(v) for v in (v0, v1, en.state))
                w = 0 if j + 1 >= len(ints) else (t - ints[j]) / (ints[j + 1] - ints[j])
                chk.evals += 1
                if any(abs(a + (b - a) * w - g) > 1e-6 * (1 + abs(a) + abs(b)) for a, b, g in zip(x0, x1, xe)):
                    chk.violation("S09.state-interpolated", f"{p} at {t}ms: {en.state} between {v0} and {v1}", None)
            trs.append(tr)
    for i, bs in chk.validate("SeqTrace", trs).items():
        for cl, pos in bs:
            chk.violation("S09.commands-held", f"{trs[i][pos - 1]}", trs[i][pos - 1])
