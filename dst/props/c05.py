"""C05: a write that fails or is interrupted is reported and costs nothing but the file."""
import gc
import os

from .. import disk, fmts, interrupt, snap, wcommon

RUNS = {"quick": 1600, "thorough": 40000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "casacore", "kernel tmpfs"]
STUB = ["disk failures (interposed libc layer)", "the instant of an interrupt or failed allocation (line-event seam)"]
NAMES = ["uvh5", "uvfits", "calh5", "calfits", "beamfits", "uvflag", "uvh5", "ms", "miriad", "mscal"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}


def gen(rng, i, tier):
    f = NAMES[i % len(NAMES)]
    fmt = fmts.ALL[f]
    kw = fmt.gen_kw(rng)
    cfg = fmts.generator(f)(rng)
    fmt.adjust(cfg, kw)
    mode = rng.choice(["disk", "interrupt", "interrupt"])
    sc = {"fmt": f, "cfg": cfg, "kw": kw, "mode": mode, "points": [], "faults": [], "over": rng.random() < 0.3,
          "retry": rng.choice(["same", "fresh", "both"])}
    if mode == "disk":
        sc["faults"] = [disk.gen_write_fault(rng, fmt)]
        if fmt.h5:
            sc["faults"][0]["persist"] = True
        if fmt.casa:
            sc["retry"] = "fresh"  # casacore refuses (loudly) to replace the ruins of a table
    else:
        sc["points"] = [{"at": interrupt.gen_point(rng), "kind": rng.choice(["interrupt", "memory"])} for _ in range(rng.randint(1, 6))]
    return sc


def same_data(fmt, a, b):
    """The object still stands for the same observation (writers may log in its history)."""
    if str(b["history"]).startswith(str(a["history"])):
        b = {**b, "history": a["history"]}
    ign = ("filename", "scan_number_array") if fmt.casa else ("filename",)
    return snap.diff(a, b, ignore=ign, strict_dtype=True)


def run(sc, ctx):
    fmt = fmts.ALL[sc["fmt"]]
    make = fmts.maker(sc["fmt"])
    kw = dict(sc["kw"])
    obj = make(sc["cfg"])
    before = snap.snap(obj)
    want = fmt.expect(obj, kw)
    # dry run on another instance: operation and line counts
    d0, d1, d2 = ctx.path("dry"), ctx.path("f"), ctx.path("g")
    for d in (d0, d1, d2):
        os.makedirs(d)
    p0 = os.path.join(d0, "out." + fmt.ext())
    dk = disk.Disk(ctx, d0)
    dry = make(sc["cfg"])
    dk.start()
    with interrupt.Lines() as ln:
        ctx.must(lambda: fmt.write(dry, p0, **kw), f"write-raises:{fmt.name}", "fault-free write")
    base = dk.counts()
    dk.stop()
    p = os.path.join(d1, "out." + fmt.ext())
    kw1 = dict(kw)
    if sc["over"] and fmt.name != "uvfits":
        other = make(sc["cfg"])
        ctx.must(lambda: fmt.write(other, p, **kw), f"write-raises:{fmt.name}", "fault-free write")
        kw1["clobber"] = True

    def after(failed):
        gc.collect()
        ctx.stats["failed_writes" if failed else "completed_writes"] += 1
        ctx.same(same_data(fmt, before, snap.snap(obj)), f"object-changed:{fmt.name}",
                 "the object in memory changed in a " + ("failed" if failed else "completed") + " write")
        left = wcommon.fds(ctx.dir)
        if left and failed and fmt.casa and sc["mode"] == "disk":
            ctx.known.append("ms-lock-descriptor-kept-after-io-error")
            return False
        ctx.check(not left, f"fd-leak:{fmt.name}", lambda: f"descriptors still open after the write: {[x.replace(ctx.dir, '') for x in left]}")
        ctx.check(os.getcwd() == ctx.dir, f"cwd:{fmt.name}", "the working directory changed")
        return True

    def interrupted(point, kind):
        exc = None
        with interrupt.Lines(ln.pick(*point), kind) as ln2:
            try:
                fmt.write(obj, p, **kw1)
            except BaseException as e:  # noqa: BLE001
                exc = e
        ctx.mix(ln2.n, ln2.where, type(exc).__name__)
        ctx.stats["sim_steps"] += ln2.n
        if ln2.fired:
            ctx.stats[f"fault:{kind}"] += 1
            ctx.check(exc is not None, f"swallowed-interrupt:{fmt.name}", f"an injected {kind} at {ln2.where} was swallowed")
        return exc is not None

    def body():
        if sc["mode"] == "disk":
            exc, fired, _ = wcommon.faulty_write(ctx, fmt, obj, p, kw1, sc["faults"], base)
            if any(fired):
                ctx.stats["runs_with_fault"] += 1
            ctx.mix(type(exc).__name__)
            failed = exc is not None
            exc = None
            if not after(failed):
                return True
        else:
            for k, pt in enumerate(sc["points"]):
                after(interrupted(pt["at"], pt["kind"]))
                if fmt.name != "uvfits":
                    kw1["clobber"] = True
                if fmt.casa:
                    fmts.remove(p)  # the ruins of a table cannot be replaced
        # once the faults stop, the same object can be written
        if sc["retry"] in ("same", "both"):
            k = dict(kw)
            if fmt.name != "uvfits":
                k["clobber"] = True
            ctx.must(lambda: fmt.write(obj, p, **k), f"retry-raises:{fmt.name}", "writing again to the same place after the fault")
            back = ctx.must(lambda: fmt.read(p), f"retry-unreadable:{fmt.name}", "reading the second write")
            ctx.same(fmt.compare(want, snap.snap(back)), f"retry-differs:{fmt.name}", "second write differs")
        if sc["retry"] in ("fresh", "both"):
            q = os.path.join(d2, "out." + fmt.ext())
            ctx.must(lambda: fmt.write(obj, q, **kw), f"retry-raises:{fmt.name}", "writing to another place after the fault")
            back = ctx.must(lambda: fmt.read(q), f"retry-unreadable:{fmt.name}", "reading the second write")
            ctx.same(fmt.compare(want, snap.snap(back)), f"retry-differs:{fmt.name}", "second write differs")
        return True

    if (fmt.abortive or fmt.h5) and sc["mode"] == "disk":
        kind, val = ctx.in_child(body)
        if kind == "died":
            # known finding: the C library ends the process
            ok = ("ms" if fmt.casa else fmt.name, val) in (("miriad", 1), ("ms", -6), ("ms", -11)) or (fmt.h5 and val == -11)
            ctx.check(ok, f"process-died:{fmt.name}", f"status {val}")
            ctx.known.append("hdf5-crash-after-failed-write" if fmt.h5 else ("ms" if fmt.casa else fmt.name) + "-exits-on-io-error")
        else:
            ctx.check(kind == "ok", f"failed:{fmt.name}", str(val))
    else:
        body()
