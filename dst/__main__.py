import os
import sys

from . import engine


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        return engine.main_check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick"))
    if cmd == "replay":
        return engine.main_replay(sys.argv[2])
    if cmd == "explore":  # development: print all violation classes of a batch
        return engine.explore(sys.argv[2], sys.argv[3], int(sys.argv[4]))
    if cmd == "zygote":
        from .props import c19

        return c19.zygote(sys.argv[2])
    raise SystemExit(2)


sys.stdout.flush()
rc = main()
sys.stdout.flush()
os._exit(rc)
