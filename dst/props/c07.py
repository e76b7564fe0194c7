"""C07: a read either gives exactly what is in the file or fails, and a failed read costs nothing."""
import gc
import os

from .. import disk, fmts, interrupt, samples, snap, wcommon
from .c06 import tree

RUNS = {"quick": 1500, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "casacore", "kernel tmpfs"]
STUB = ["read failures (interposed libc layer; FITS data read instead of mapped)", "the instant of an interrupt (line-event seam)"]
NAMES = ["uvh5", "uvfits", "calh5", "calfits", "beamfits", "uvflag", "uvh5", "ms", "miriad", "calh5", "uvflag", "mscal"]
SAMPLES = ["mwa", "mwa", "mwa2", "mwax", "fhd", "fhd", "fhdcal", "mir", "mir", "miradio", "atca", "oldh5", "oldfits", "smagain", "oldcal", "mwabeam", "cst", "cst"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "cfg2": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}


def gen(rng, i, tier):
    if i % 4 == 3:
        return gen_sample(rng)
    f = NAMES[(i // 4 * 3 + i % 4) % len(NAMES)]
    fmt = fmts.ALL[f]
    kw = fmt.gen_kw(rng)
    cfg = fmts.generator(f)(rng)
    fmt.adjust(cfg, kw)
    sc = {"fmt": f, "cfg": cfg, "kw": kw, "rkw": {}, "steps": [], "used": rng.random() < 0.5, "cfg2": fmts.generator(f)(rng)}
    if f in ("uvh5", "uvfits", "miriad", "calh5", "calfits") and rng.random() < 0.2:
        sc["rkw"]["read_data"] = False
    if rng.random() < 0.15 and f != "uvflag":
        sc["rkw"]["run_check"] = False
    gen_steps(rng, sc, f in ("ms", "mscal", "miriad"))
    return sc


def gen_sample(rng):
    """A read of one of the formats that only have readers."""
    name = rng.choice(SAMPLES)
    smp = samples.ALL[name]
    sc = {"fmt": "sample", "sample": name, "kw": {}, "rkw": smp.gen_kw(rng), "steps": [], "used": rng.random() < 0.3}
    if rng.random() < 0.15:
        sc["rkw"]["run_check"] = False
    gen_steps(rng, sc, smp.abortive)
    return sc


def gen_steps(rng, sc, abortive):
    for _ in range(rng.randint(1, 3)):
        if rng.random() < (0.5 if abortive else 0.75):
            sc["steps"].append({"faults": [disk.gen_read_fault(rng)]})
        else:
            sc["steps"].append({"at": interrupt.gen_point(rng), "kind": rng.choice(["interrupt", "memory"])})


class FitsRead:
    """FITS data through read() instead of mmap, where faults can be injected."""

    def __enter__(self):
        from astropy.io import fits

        self.fits, self.old = fits, fits.open

        def op(*a, **k):
            k["memmap"] = False
            return self.old(*a, **k)

        fits.open = op

    def __exit__(self, *a):
        self.fits.open = self.old


def run(sc, ctx):
    with FitsRead():
        _run(sc, ctx)


def _run(sc, ctx):
    d = ctx.path("f")
    if sc["fmt"] == "sample":
        fmt, p = samples.ALL[sc["sample"]], d
        fmt.copy(d)

        def make(_):
            o = fmt.new()
            fmt.read(d, o, **sc["rkw"])
            o.history += " used before."
            return o
    else:
        fmt = fmts.ALL[sc["fmt"]]
        make = fmts.maker(sc["fmt"])
        os.makedirs(d)
        p = os.path.join(d, "out." + fmt.ext())
        obj = make(sc["cfg"])
        ctx.must(lambda: fmt.write(obj, p, **sc["kw"]), f"write-raises:{fmt.name}", "fault-free write")
    ctx.must(lambda: fmt.read(p, **sc["rkw"]), f"read-raises:{fmt.name}", "fault-free read")  # (warms caches)
    dk = disk.Disk(ctx, d)
    dk.start()
    with interrupt.Lines() as ln:
        good = ctx.must(lambda: fmt.read(p, **sc["rkw"]), f"read-raises:{fmt.name}", "fault-free read")
    base = dk.counts()
    dk.stop()
    want = snap.snap(good)
    files = tree(p)

    def check_good(o, what, faulty=False):
        df = snap.diff(want, snap.snap(o), strict_dtype=True, ignore=("filename",))
        if faulty and df and fmt.casa and all(x.startswith(("history", "nsample_array", "phase_center_", "spw_array")) for x in df):
            ctx.known.append("ms-optional-column-error-taken-as-absent")
            return
        ctx.same(df, f"wrong-data:{fmt.name}", what)

    def body():
        handler = False
        for st in sc["steps"]:
            target = None
            if sc["used"]:
                target = make(sc.get("cfg2"))
                held = snap.snap(target)
            exc = None
            if "faults" in st:
                dk = disk.Disk(ctx, d)
                with disk.Unraisable() as un:
                    dk.start(st["faults"], base)
                    got, exc = ctx.attempt(lambda: fmt.read(p, target, **sc["rkw"]))
                    fired = dk.stop()
                if any(fired):
                    ctx.stats["runs_with_fault"] += 1
                del un
            else:
                got = None
                with interrupt.Lines(ln.pick(*st["at"]), st["kind"]) as ln2:
                    try:
                        got = fmt.read(p, target, **sc["rkw"])
                    except BaseException as e:  # noqa: BLE001
                        exc = e
                ctx.stats["sim_steps"] += ln2.n
                handler = handler or ln2.handler
                if ln2.fired:
                    ctx.stats[f"fault:{st['kind']}"] += 1
                    ctx.check(exc is not None or not ln2.fired, f"swallowed-interrupt:{fmt.name}",
                              f"an injected {st['kind']} at {ln2.where} was swallowed")
            ctx.mix(type(exc).__name__)
            failed = exc is not None
            exc = None
            gc.collect()
            ctx.stats["failed_reads" if failed else "completed_reads"] += 1
            if not failed:
                check_good(got, "a read under faults returned normally with other data than the file holds", "faults" in st)
            elif target is not None and fmt.name != "uvflag" and "faults" in st:
                ctx.same(snap.diff(held, snap.snap(target), strict_dtype=True), f"target-changed:{fmt.name}",
                         "a failed read changed the object it was to read into")
            got = None
            gc.collect()
            left = wcommon.fds(d)
            if left and fmt.casa and "faults" in st:
                ctx.known.append("ms-descriptors-kept-after-read-error")
                return True  # (casacore keeps its table cache: nothing further to judge)
            ctx.check(not left or handler, f"fd-leak:{fmt.name}", lambda: f"descriptors still open after the read: {[x.replace(ctx.dir, '') for x in left]}")
            if target is not None and failed:
                again = ctx.must(lambda: fmt.read(p, target, **sc["rkw"]), f"retry-raises:{fmt.name}", "reading again into the same object")
                check_good(again, "reading again into the same object after a failed read")
        again = ctx.must(lambda: fmt.read(p, **sc["rkw"]), f"retry-raises:{fmt.name}", "reading again after the faults")
        check_good(again, "reading again after the faults")
        ctx.check(tree(p) == files, f"file-changed:{fmt.name}", "reading changed the file")
        return True

    if fmt.abortive and any("faults" in s for s in sc["steps"]):
        kind, val = ctx.in_child(body)
        if kind == "died":
            ok = ("ms" if fmt.casa else "miriad", val) in (("miriad", 1), ("ms", -11), ("ms", -6))
            ctx.check(ok, f"process-died:{fmt.name}", f"status {val}")
            ctx.known.append("ms-crash-on-read-error" if fmt.casa else "miriad-exits-on-io-error")
        else:
            ctx.check(kind == "ok", f"failed:{fmt.name}", str(val))
    else:
        body()
