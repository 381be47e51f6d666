from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('goal', 'coll') if chk.quick else simchecks.FAMILIES, {"S04", "S02.observed-players", "S06.reported-players-active"}, liveness=())
    simchecks.record(chk, 20 if chk.quick else 200, {"S04", "S02.observed-players", "S06.reported-players-active"}, missions=True)
