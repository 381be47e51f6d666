from vf import impact


def run(chk):
    impact.replay(chk, "C02")
    impact.record(chk, 400 if chk.quick else 6000)
