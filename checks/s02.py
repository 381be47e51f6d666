from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('sched', 'goal') if chk.quick else simchecks.FAMILIES, {"S02"}, liveness=())
    simchecks.record(chk, 16 if chk.quick else 150, {"S02"}, sensors=simchecks.random_sensor)
