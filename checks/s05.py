from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('sched', 'goal', 'coll', 'wall') if chk.quick else simchecks.FAMILIES, {"S05"}, liveness=('sched', 'goal', 'wall'))
    simchecks.record(chk, 14 if chk.quick else 150, {"S05"})
