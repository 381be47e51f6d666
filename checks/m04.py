"""States and commands as vectors: spec/AlgMC.tla"""
import math

import numpy as np

from vf.modelcases import *

CLASSES = [VehicleState, VehicleStateDyn, PedestrianState, DiffDriveState, DynObstacleState, SpacecraftState, SpaceshipState, RocketState,
           VehicleCommands, PedestrianCommands, DiffDriveCommands, DynObstacleCommands, SpacecraftCommands, SpaceshipCommands, RocketCommands]
OPS = dict(add=lambda x, y: x + y, radd=lambda x, y: y + x, sub=lambda x, y: x - y, rsub=lambda x, y: y - x, mul=lambda x, k: x * k,
           rmul=lambda x, k: k * x, div=lambda x, k: x / k)


def run(chk):
    rng = chk.rng
    for dim in sorted({len(c.idx) for c in CLASSES}):
        behs = chk.emit("AlgMC", constants=dict(Dim=dim, MaxOps=3 if dim < 5 or not chk.quick else 2), invariants=["Laws", "Emit"], workers=8, label=f"AlgMC/{dim}")
        behs.sort(key=repr)
        if chk.quick and len(behs) > 1200:
            rng.shuffle(behs)
            behs = behs[:1200]
        for cls in [c for c in CLASSES if len(c.idx) == dim]:
            # component j of the vectors is field number j of the class (in any fixed order)
            fields = sorted(cls.idx, key=lambda f: cls.idx[f])

            def bad(cl, what):
                chk.violation("M04." + cl, f"{cls.__name__}: {what}", None)

            if sorted(cls.idx.values()) != list(range(dim)):
                bad("array", f"positions {cls.idx}")
            extra = dict(lights="turn_left") if cls is VehicleCommands else {}
            vec = dict(u=lambda: cls(**{f: 2.0 * (j + 1) + 1 for j, f in enumerate(fields)}, **extra),
                       v=lambda: cls(**{f: 3.0 - (j + 1) ** 2 for j, f in enumerate(fields)}))
            for b in behs:
                h = b["h"]
                x = vec[h[0]]()
                k = None
                for op, a in zip(h[1::2], h[2::2]):
                    k = vec[a]() if isinstance(a, str) else rng.choice([float, np.float64])(r(a))
                    keep = nums(x) if not cls.__name__.endswith("Commands") else None
                    y = OPS[op](x, k)
                    if keep is not None and nums(x) != keep:
                        bad("value", f"{op} changed its operand")
                    x = y
                got = [float(getattr(x, f)) for f in fields] if type(x) is cls else type(x)
                chk.evals += 1
                if type(x) is not cls or any(not math.isclose(g, r(e), rel_tol=1e-9, abs_tol=1e-9) for g, e in zip(got, b["x"])):
                    bad("value", f"{h} gives {got} expected {[r(e) for e in b['x']]}")
            # arrays
            for n in ("u", "v"):
                x = vec[n]()
                z = x.as_ndarray()
                chk.evals += 1
                if z.shape != (dim,) or any(z[cls.idx[f]] != getattr(x, f) for f in fields):
                    bad("array", f"{x} as array {z}")
                y = cls.from_array(np.array([7.0 + 3 * j for j in range(dim)]))
                if type(y) is not cls or any(getattr(y, f) != 7.0 + 3 * cls.idx[f] for f in fields):
                    bad("array", f"from array: {y}")
                w = cls.from_array(z)
                if any(getattr(w, f) != getattr(x, f) for f in fields) or (not extra and (w != x or hash(w) != hash(x))):
                    bad("array", f"round trip of {x}: {w}")
                for n2 in (dim - 1, dim + 1):
                    try:
                        cls.from_array(np.zeros(n2))
                        bad("array", f"array of length {n2} accepted")
                    except (AssertionError, IndexError, ValueError):
                        pass
            for _ in range(20):
                z = np.array([rng.choice([rng.uniform(-4, 4), rng.gauss(0, 1e-7), rng.uniform(-1, 1) * 1e7]) for _ in range(dim)])
                x = cls.from_array(z.copy())
                chk.evals += 1
                if any(getattr(x, f) != z[cls.idx[f]] for f in fields) or not np.array_equal(x.as_ndarray(), z):
                    bad("array", f"round trip of the array {z}: {x}")
            if (vec["u"]() == vec["v"]()) or vec["u"]() != vec["u"]() or hash(vec["u"]()) != hash(vec["u"]()):
                bad("equality", "equality or hash")
            for other in CLASSES:
                if other is not cls and not issubclass(cls, other) and not issubclass(other, cls):
                    try:
                        z = vec["u"]() + other.from_array(np.zeros(len(other.idx)))
                        bad("types", f"sum with {other.__name__} gives {z!r}")
                    except (NotImplementedError, TypeError):
                        pass
        chk.traces += len(behs)
    chk.sample(dict(kind="vector expression", case=behs[0]))
