"""Motion laws of the models: spec/Models.tla (cases in which no limit acts), spec/ModelTrace.tla."""
from vf import modelcases, modeltraces


def run(chk):
    modelcases.replay_grid(chk, True, "M03.motion-law")
    modelcases.replay_tyres(chk, True, "M03.tyre-law")
    n = 250 if chk.quick else 4000
    modeltraces.validate(chk, [modeltraces.motion(chk.rng) for _ in range(n)], "M03")
