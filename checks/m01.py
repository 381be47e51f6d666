"""Actuation and state limits of the motion models: spec/Models.tla (cases in which a limit acts), spec/ModelTrace.tla."""
from vf import modelcases, modeltraces


def run(chk):
    modelcases.replay_grid(chk, False, "M01.actuation-limits")
    modelcases.replay_tyres(chk, False, "M01.actuation-limits")
    n = 300 if chk.quick else 4000
    modeltraces.validate(chk, [modeltraces.steps(chk.rng) for _ in range(n)], "M01")
