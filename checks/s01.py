from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('sched', 'goal', 'coll') if chk.quick else simchecks.FAMILIES, {"S01"}, liveness=('sched',))
    simchecks.record(chk, 14 if chk.quick else 150, {"S01"})
