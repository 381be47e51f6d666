from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('coll', 'three', 'wall') if chk.quick else simchecks.FAMILIES, {"S06"}, liveness=())
    simchecks.record(chk, 30 if chk.quick else 300, {"S06"}, posts=lambda i: 0.6 if i % 2 else 0.0, corners=lambda i: 0.0 if i % 2 else 0.7, piles=lambda i: 0.8 if i % 3 == 1 else 0.0)
