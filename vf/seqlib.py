"""Realising the integer sequences of spec/Seq.tla with the implementation's timestamps and values, and comparing results."""
import json
import math
from dataclasses import dataclass
from decimal import Decimal
from fractions import Fraction

import numpy as np

from dg_commons import DgSampledSequence
from dg_commons.seq.sequence import DgSampledSequenceBuilder, UndefinedAtTime, iterate_with_dt, IterateDT
from dg_commons.sim.models.vehicle import VehicleState
from zuper_commons.types import ZValueError

TH = "ThLookup ThSub ThShift ThCalc Emit".split()


def ops_cases(chk):
    k = dict(MaxT=5, MaxLen=4) if chk.quick else dict(MaxT=7, MaxLen=5)
    r = chk.emit("SeqMC", constants=dict(Family='"ops"', MaxOps=0, **k), invariants=TH, label="SeqMC/ops", workers=6)
    r.sort(key=lambda c: json.dumps(c["x"]))
    return r, k


class Clock:
    """maps model instants (integers, or halves) to implementation timestamps"""

    def __init__(self, rng):
        self.kind = rng.choice(["int", "float", "dyadic", "decimal", "neg-decimal", "huge", "tiny"])
        self.mk = {
            "int": lambda k: int(2 * k) + 3,
            "float": lambda k: 0.1 + float(k) * 0.037,
            "dyadic": lambda k: -1.5 + float(k) * 0.25,
            "decimal": lambda k: Decimal(str(float(k))) * Decimal("0.1"),
            "neg-decimal": lambda k: Decimal("-1.25") + Decimal(str(float(k))) * Decimal("0.05"),
            "huge": lambda k: 1.0e9 + float(k) * 0.5,
            "tiny": lambda k: 0.5 + float(k) * 2.0**-13,
        }[self.kind]
        self.unit = {"int": 2, "float": 0.037, "dyadic": 0.25, "decimal": 0.1, "neg-decimal": 0.05, "huge": 0.5, "tiny": 2.0**-13}[self.kind]
        self.off = float(self.mk(0))
        self.rng = rng

    def __call__(self, k):
        return self.mk(k)

    def query(self, k):
        """possibly of another number type where that is exact"""
        t = self.mk(k)
        if self.kind in ("dyadic", "huge") and self.rng.random() < 0.3:
            return Decimal(t) if self.kind == "dyadic" else t
        if self.kind == "int" and self.rng.random() < 0.5:
            return float(t)
        return t


class Val:
    """maps model values to implementation values of several types; `num` reads them back"""

    KINDS = ["int", "float", "array", "state"]

    def __init__(self, rng, kinds=KINDS):
        self.kind = rng.choice(kinds)

    def __call__(self, v):
        if self.kind == "int":
            return int(v)
        if self.kind == "float":
            return float(v)
        if self.kind == "array":
            return np.array([float(v), 10.0 - 3 * v])
        if self.kind == "obj":
            return Tok(v)
        return VehicleState(x=float(v), y=2.0 * v, psi=0.1 * v, vx=-float(v), delta=0.01 * v)

    def num(self, r):
        if self.kind == "array":
            return float(r[0]) if math.isclose(r[1], 10.0 - 3 * r[0], abs_tol=1e-9) else math.nan
        if self.kind == "obj":
            return r.v
        if self.kind == "state":
            for a, b in ((r.y, 2.0 * r.x), (r.vx, -r.x), (r.psi, 0.1 * r.x), (r.delta, 0.01 * r.x)):
                if not math.isclose(a, b, abs_tol=1e-9):
                    return math.nan
            return float(r.x)
        return r


@dataclass(frozen=True)
class Tok:
    v: int


def realise(x, clk, val, T=float):
    return DgSampledSequence[T](timestamps=[clk(k) for k in x["ts"]], values=[val(v) for v in x["vs"]])


def same(a, b, tol=1e-9):
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=tol)


def fr(q):
    return q[0] / q[1]


def random_int_seq(rng, n):
    t, ts = rng.randint(-3, 3), []
    for _ in range(n):
        ts.append(t)
        t += rng.choice([1, 2, 4])
    return dict(ts=ts, vs=[rng.randint(-20, 20) for _ in range(n)])


def rat(f):
    """exact rational of a number (dyadic by construction) as <<num, den>>; far-off results are clamped into 32 bits"""
    fr_ = Fraction(f)
    if abs(fr_.numerator) > 10**6 or fr_.denominator > 10**4:
        return [999999, 1]
    return [fr_.numerator, fr_.denominator]


def attempt(f):
    try:
        return f(), False
    except UndefinedAtTime:
        return None, True


def random_trace(rng, ops, n_ops=25):
    """operations on one long sequence with exactly representable results"""
    from dg_commons.seq import seq_op

    long = {"at", "prev", "interp", "sub", "shift"} & set(ops) and rng.random() < 0.08
    if long:
        ops = [op for op in ops if op in ("at", "prev", "interp", "sub", "shift")]
    x = random_int_seq(rng, rng.randint(300, 900) if long else rng.randint(2, 40))
    mk = rng.choice([int, float, Decimal])
    ts, vs = [mk(t) for t in x["ts"]], [rng.choice([int, float])(v) for v in x["vs"]]
    s = DgSampledSequence[float](timestamps=ts, values=vs)
    if rng.random() < 0.5:
        b = DgSampledSequenceBuilder[float]()
        for t, v in zip(ts, vs):
            b.add(t, v)
        s = b.as_sequence()
        b.add(ts[-1] + 1, 5)
    ts[0], vs[-1] = ts[0] - 1, 99
    as_s = lambda q: dict(ts=[int(t) for t in q.timestamps], vs=[int(v) for v in q.values])
    lo, hi = x["ts"][0], x["ts"][-1]
    tr = []
    for _ in range(n_ops):
        op = rng.choice(ops)
        e = dict(op=op, s=x, q=[0, 1], a=0, b=0, undef=False, r=[0, 1])
        if op in ("at", "prev", "interp"):
            num = rng.randint(4 * lo - 6, 4 * hi + 6)
            if rng.random() < 0.5:
                num = 4 * rng.choice(x["ts"])
            f = Fraction(num, 4)
            e["q"] = [f.numerator, f.denominator]
            q = mk(num / 4) if mk is not int else num / 4
            if op == "at":
                r, e["undef"] = attempt(lambda: s.at(q))
            elif op == "prev":
                r, e["undef"] = attempt(lambda: s.at_or_previous(q))
            else:
                r = s.at_interp(q)
            e["r"] = rat(r) if r is not None else [0, 1]
        elif op == "sub":
            a, b = sorted(rng.randint(lo - 3, hi + 3) for _ in range(2))
            e["a"], e["b"], e["r"] = a, b, as_s(s.get_subsequence(mk(a), mk(b)))
        elif op == "shift":
            a = rng.randint(-9, 9)
            e["a"], e["r"] = a, as_s(s.shift_timestamps(mk(a)))
        elif op == "accum":
            e["r"] = as_s(seq_op.seq_accumulate(s))
        elif op == "diff":
            e["r"] = [[rat(t), rat(v)] for t, v in seq_op.seq_differentiate(s)]
        elif op == "integ":
            e["r"] = [[rat(t), rat(v)] for t, v in seq_op.seq_integrate(s)]
        elif op == "pairs":
            e["r"] = [dict(t0=int(i.t0), t1=int(i.t1), dt=int(i.dt), v0=int(i.v0), v1=int(i.v1)) for i in iterate_with_dt(s)]
        tr.append(e)
    return tr


def traces(chk, ops, clause, n=60):
    trs = [random_trace(chk.rng, ops) for _ in range(n if chk.quick else 10 * n)]
    for i, bs in chk.validate("SeqTrace", trs, chunk=200).items():
        for cl, pos in bs:
            e = trs[i][pos - 1]
            chk.violation(cl, f"{e['op']} q={e['q']} a={e['a']} b={e['b']} on {e['s']}: result {e['r']} undef={e['undef']}", e)
