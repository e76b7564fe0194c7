"""C01-C04: an acknowledged write is complete and correct, whatever the disk does."""
from .. import disk, fmts, wcommon

RUNS = {"quick": 2000, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"


def setup(ns, names):
    import sys

    mod = sys.modules[ns["__name__"]]

    def gen(rng, i, tier):
        f = names[i % len(names)]
        fmt = fmts.ALL[f]
        kw = fmt.gen_kw(rng)
        cfg = fmts.generator(f)(rng)
        fmt.adjust(cfg, kw)
        return {"fmt": f, "cfg": cfg, "kw": kw,
                "faults": [] if rng.random() < 0.3 else [disk.gen_write_fault(rng, fmt) for _ in range(rng.choice([1, 1, 1, 2]))],
                "hard_exit": rng.random() < 0.2}

    def run(sc, ctx):
        make = fmts.maker(sc["fmt"])
        wcommon.durable_run(sc, ctx, fmts.ALL[sc["fmt"]], lambda: make(sc["cfg"]), dict(sc["kw"]))

    mod.gen, mod.run = gen, run
    mod.RUNS, mod.WALL, mod.LEVEL = RUNS, WALL, LEVEL
    mod.DEFAULTS = {"cfg": fmts.default_cfg(names[0]), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}
    mod.STUB = ["disk failures, by an interposed libc layer under the scratch directory"]
