from vf import simchecks


def run(chk):
    simchecks.replay(chk, ('goal',) if chk.quick else simchecks.FAMILIES, {"S08"}, liveness=())
    simchecks.record(chk, 20 if chk.quick else 200, {"S08", "S02", "S03"}, vandal=True, missions=lambda i: i % 4 != 1, sensors=simchecks.random_sensor)
