from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('sched', 'goal', 'coll') if chk.quick else simchecks.FAMILIES, {"S03"}, liveness=())
    simchecks.record(chk, 14 if chk.quick else 150, {"S03"})
