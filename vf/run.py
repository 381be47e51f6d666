import importlib, logging, os, sys

REPO_SRC = os.environ.get("VF_REPO_SRC", "/repo/src")


def quiet():
    """the library logs a lot, through handlers bound to file descriptor 2: keep a private stderr for the machinery"""
    real = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    sys.stderr.flush()
    os.dup2(null, 2)
    sys.stderr = os.fdopen(real, "w", buffering=1)
    logging.disable(logging.CRITICAL)


if __name__ == "__main__":
    pid = sys.argv.pop(1)
    quiet()
    try:
        import dg_commons
        import dg_commons.sim

        for lg in (dg_commons.logger, dg_commons.sim.logger):
            lg.setLevel(logging.CRITICAL + 10)
    except Exception as e:  # the package does not even import
        import traceback

        traceback.print_exc()
        print("MACHINERY ERROR: dg_commons cannot be imported:", e)
        sys.exit(3)
    assert dg_commons.__file__.startswith(REPO_SRC), dg_commons.__file__
    from vf import core

    mod = importlib.import_module(f"checks.{pid.lower()}")
    sys.exit(core.main(mod.run, pid))
