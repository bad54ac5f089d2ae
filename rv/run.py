import importlib, os, shutil, sys, glob

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import core


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    home = core.setup_environment()
    rc = 3
    try:
        mods = glob.glob(os.path.join(core.VERIF, "checks", pid.lower() + "_*.py"))
        assert len(mods) == 1, (pid, mods)
        try:
            m = importlib.import_module("checks." + os.path.basename(mods[0])[:-3])
        except Exception as e:
            if core.from_repo(e):
                print("recap can't be imported:", e)
            raise
        rc = core.run_check(m, tier, seed)
    finally:
        os.chdir("/")
        shutil.rmtree(home, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
