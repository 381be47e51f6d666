"""Utilities: combinations, frozen maps, players in reports, timed functions; the tables come from spec/ProductMC.tla"""
import re
import time
from collections import Counter
from types import MappingProxyType, SimpleNamespace

import dg_commons
from dg_commons import PlayerName, fd, fkeyfilter, fs, fvalmap, iterate_dict_combinations, valmap
from dg_commons.eval.safety import has_collision
from dg_commons.sim import CollisionReport
from dg_commons.sim.models import kmh2ms, ms2kmh, ms2mph
from dg_commons.sim.utils import who_collided
from dg_commons.time import time_function


def run(chk):
    cases = sorted(chk.emit("ProductMC", constants=dict(MaxPlayers=2 if chk.quick else 3, MaxOptions=3 if chk.quick else 2, MaxCalls=4 if chk.quick else 7), workers=4,
                            invariants=["Complete", "NothingWithoutOptions", "OneMessageEach", "InnerFirst", "Emit"]), key=repr)
    for c in cases:
        chk.traces += 1
        chk.evals += 1
        (product if c["mode"] == "product" else calls)(chk, c)
    for v in (0, 1, -7.2, 36, 123.4, 1e9):
        chk.evals += 1
        if abs(kmh2ms(v) * 3600 - 1000 * v) > 1e-6 * abs(v) or abs(ms2kmh(kmh2ms(v)) - v) > 1e-9 * abs(v) or abs(ms2mph(v) * 1609.344 - 3600 * v) > 0.1 * abs(v):
            chk.violation("U01.units", f"speed {v}: {kmh2ms(v)} {ms2kmh(v)} {ms2mph(v)}", v)
    chk.sample(cases[-1])


class Seq:  # a collection of its own
    def __init__(self, l):
        self.l = l

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)

    def __contains__(self, x):
        return x in self.l


def frozen(chk, d, want, c, cl):
    if dict(d) != want:
        chk.violation(f"U01.{cl}", f"{dict(d)} expected {want}; {c}", c)
    try:
        d[PlayerName("P1")] = 3
        chk.violation(f"U01.{cl}", f"{type(d)} is not frozen; {c}", c)
    except TypeError:
        pass
    try:
        if hash(d) != hash(fd(want)):
            chk.violation(f"U01.{cl}", f"equal maps hash differently; {c}", c)
    except TypeError as e:
        chk.violation(f"U01.{cl}", f"{type(d)} cannot be hashed: {e}; {c}", c)


def product(chk, c):
    as_dict = lambda s: {PlayerName(f"P{i + 1}"): x for i, x in enumerate(s)}
    want = [as_dict(s) for s in c["all"]]
    for k, wrap in enumerate((list, tuple, Seq, lambda l: l)):
        o = as_dict([wrap(list(x)) for x in c["opts"]])
        m = (o, MappingProxyType(o), fd(o), dict(reversed(list(o.items()))))[k]
        keys = list(m)
        got = list(iterate_dict_combinations(m))
        if Counter(fd(g) for g in got) != Counter(fd(w) for w in want):
            chk.violation("U01.combinations", f"options {c['opts']}: {[dict(g) for g in got]} expected {want}", c)
        if list(m) != keys:
            chk.violation("U01.combinations", f"options changed; {c}", c)
        for g in got[:2]:
            frozen(chk, g, dict(g), c, "combinations")
    sets = as_dict([set(x) for x in c["opts"]])
    got = list(iterate_dict_combinations(sets))
    if len(got) != len(set(got)) or set(got) != {fd(w) for w in want}:
        chk.violation("U01.combinations", f"sets of options {sets}: {[dict(g) for g in got]}", c)
    for w, dbl, odd in list(zip(want, c["doubled"], c["odd"]))[:4]:
        keep = dict(w)
        frozen(chk, fvalmap(lambda v: 2 * v + 1, w), as_dict(dbl), c, "valmap")
        frozen(chk, fkeyfilter(lambda p: int(p[1:]) % 2 == 1, w), {PlayerName(f"P{i}"): w[f"P{i}"] for i in odd}, c, "keyfilter")
        frozen(chk, fd(w), w, c, "fd")
        d = valmap(lambda v: 2 * v + 1, fd(w))
        if d != as_dict(dbl) or not isinstance(d, dict) or w != keep:
            chk.violation("U01.valmap", f"{d} expected {as_dict(dbl)}; {c}", c)
        if fs(list(w)) != frozenset(w) or not isinstance(fs(w), frozenset):
            chk.violation("U01.fs", f"{fs(list(w))}; {c}", c)
    # collisions between some of them each
    involved = [chk.rng.sample(sorted(w), chk.rng.randint(min(1, len(w)), min(2, len(w)))) for w in want]
    reports = [CollisionReport.get_empty(players={p: None for p in ps}, at_time=i) for i, ps in enumerate(involved)]
    got = who_collided(SimpleNamespace(collision_reports=reports))
    if got != frozenset(p for ps in involved for p in ps):
        chk.violation("U01.who", f"collided: {got} although {involved}", c)
    reports = [CollisionReport.get_empty(players={p: None for p in w}, at_time=i) for i, w in enumerate(want)]
    got = who_collided(SimpleNamespace(collision_reports=reports))
    if got != frozenset(PlayerName(f"P{i}") for i in c["reported"]) or not isinstance(got, frozenset):
        chk.violation("U01.who", f"collided: {got} expected {c['reported']}", c)


    for ego in (PlayerName("Ego"), PlayerName("ego")):
        more = reports + [CollisionReport.get_empty(players={PlayerName("P1"): None, ego: None}, at_time=1)] * chk.rng.randint(0, 1)
        chk.rng.shuffle(more)
        if has_collision(more) != any(PlayerName("Ego") in r.players for r in more):
            chk.violation("U01.who", f"has the ego collided: {has_collision(more)} for {[list(r.players) for r in more]}", c)


class Oops(Exception):
    pass


class Empty(Oops, StopIteration):
    pass


class Missing(Oops, AttributeError):
    pass


class Wrong(Oops, TypeError):
    pass


class Listener:
    """in place of the methods of the logger of the package"""

    def __init__(self):
        self.l = []
        for m in LEVELS:
            setattr(dg_commons.logger, m, lambda msg, *a, **k: self.l.append(str(msg)))

    def stop(self):
        for m in LEVELS:
            delattr(dg_commons.logger, m)


LEVELS = ["debug", "info", "warning", "warn", "error", "critical"]


def calls(chk, c):
    n, kinds = len(c["calls"]), c["calls"]
    heard = Listener()
    entered = []
    how = chk.rng.choice([Oops, Empty, Missing, Wrong])

    class Obj:
        @time_function
        def level(self, k, /, *args, extra=0, **kw):
            """what it does"""
            entered.append((k, args, extra, kw))
            inner = None
            if k < n:
                try:
                    inner = Obj.level(self, k + 1, *args, extra=extra, **kw)
                except Oops as e:
                    inner = e.args[0]
            if kinds[k - 1] == "raises":
                raise how(("raised", k, inner))
            return "returned", k, inner

    try:
        # what comes out: by hand, from the innermost level
        want = None
        for k in range(n, 0, -1):
            want = ("raised" if kinds[k - 1] == "raises" else "returned", k, want)
        began = time.process_time()
        try:
            got = Obj().level(1, "a", 2, extra=7, more="x")
        except Oops as e:
            got = e.args[0] if type(e) is how else e
        if got != want:
            chk.violation("U01.timed", f"calls that {kinds} gave {got} expected {want}", c)
        if entered != [(k, ("a", 2), 7, {"more": "x"}) for k in range(1, n + 1)]:
            chk.violation("U01.timed", f"called with {entered}", c)
        if len(heard.l) != len(c["msgs"]) or any("level" not in m for m in heard.l):
            chk.violation("U01.timed", f"calls that {kinds}: messages {heard.l}", c)
        # seconds; inner calls report first and are part of the outer ones
        took = [float(re.findall(r"[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?", m)[-1]) for m in heard.l if re.search(r"\d", m)]
        if took != sorted(took) or any(not 0 <= s <= time.process_time() - began for s in took):
            chk.violation("U01.timed", f"took {took} s: {heard.l}", c)
        if Obj.level.__name__ != "level" or Obj.level.__doc__ != "what it does":
            chk.violation("U01.timed", f"{Obj.level.__name__} {Obj.level.__doc__}", c)
    finally:
        heard.stop()
