"""C12: what a read returns does not depend on when the background LST thread runs."""
import sys

import h5py
import numpy as np

from .. import fmts, sched, snap

RUNS = {"quick": 1800, "thorough": 40000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "python-casacore", "real threads"]
STUB = ["the thread scheduler (baton passing at line events)", "failed allocations in the thread (line-event seam)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "old": fmts.default_cfg("uvh5")}
NAMES = ["uvh5", "uvfits", "ms", "miriad", "calh5", "calfits", "uvh5", "uvfits", "calh5", "calfits", "mscal", "direct"]
DATA = "/repo/src/pyuvdata/data/"
P = [(0.0, 0.0), (0.05, 0.0), (0.3, 0.0), (0.3, 0.05), (1.0, 0.0), (0.02, 0.002)]


def gen(rng, i, tier):
    name = NAMES[i % len(NAMES)]
    if i % 40 == 13:
        name = rng.choice(["fhd", "mwa", "fhdcal"])
    f = name if name in fmts.ALL else rng.choice(["uvh5", "calh5", "uvflag"])
    runs = []
    for _ in range(rng.choice([2, 3, 4])):
        s = {"seed": rng.randrange(1 << 30), "p": rng.randrange(len(P)), "start": rng.choice([0.0, 0.0, 0.5, 1.0]), "used": rng.random() < 0.3}
        q = rng.random()
        if q < 0.2:
            s["tfault"] = [rng.randint(1, 60) if rng.random() < 0.7 else rng.randint(1, 400), rng.choice(["memory", "oserror", "interrupt"])]
        elif q < 0.35:
            s["mfault"] = rng.random()
        runs.append(s)
    kw = {}
    if rng.random() < 0.3:
        kw["run_check"] = False
    if rng.random() < 0.3:
        kw["run_check_acceptability"] = False
    if rng.random() < 0.2:
        kw["astrometry_library"] = rng.choice(["erfa", "astropy"])
    cfg = fmts.generator(f)(rng)
    return {"name": name, "fmt": f, "cfg": cfg, "old": fmts.generator(f)(rng), "runs": runs, "kw": kw, "strip": rng.random() < 0.85, "nodata": rng.random() < 0.15, "two": rng.random() < 0.3}


def strip(name, path):
    """Files as other software (or older versions) write them: without the LSTs."""
    if name in ("uvh5", "calh5"):
        with h5py.File(path, "r+") as f:
            for k in ("lst_array", "lst_range"):
                if k in f["Header"]:
                    del f["Header"][k]
    elif name == "uvfits":
        with open(path, "r+b") as f:
            d = f.read(2880 * 40)
            f.seek(0)
            f.write(d.replace(b"= 'LST     '", b"= 'XST     '").replace(b"= '_LST    '", b"= '_XST    '"))


def reader(sc, name, path):
    from pyuvdata import UVCal, UVData

    kw = dict(sc["kw"])
    if name == "fhd":
        p = DATA + "fhd_vis_data/"
        files = {"vis_files": [p + "vis_data/1061316296_vis_XX.sav", p + "vis_data/1061316296_vis_YY.sav"], "params_file": p + "metadata/1061316296_params.sav", "obs_file": None,
                 "flags_file": p + "vis_data/1061316296_flags.sav", "layout_file": p + "metadata/1061316296_layout.sav", "settings_file": p + "metadata/1061316296_settings.txt"}
        files = {k: v for k, v in files.items() if v is not None}

        def go(o, **k):
            f = dict(files)
            o.read_fhd(f.pop("vis_files"), params_file=f["params_file"], flags_file=f["flags_file"], layout_file=f["layout_file"], settings_file=f["settings_file"], **kw, **k)
            return o

        return UVData, go
    if name == "fhdcal":
        p = DATA + "fhd_cal_data/"

        def go(o, **k):
            o.read_fhd_cal(cal_file=p + "calibration/1061316296_cal.sav", obs_file=p + "metadata/1061316296_obs.sav", layout_file=p + "metadata/1061316296_layout.sav",
                           settings_file=p + "metadata/1061316296_settings.txt", **kw, **k)
            return o

        return UVCal, go
    if name == "mwa":
        p = DATA + "mwa_corr_fits_testfiles/"

        def go(o, **k):
            o.read_mwa_corr_fits([p + "1131733552.metafits", p + "1131733552_20151116182537_mini_gpubox01_00.fits"], correct_cable_len=True, **kw, **k)
            return o

        return UVData, go
    fm = fmts.ALL[name]
    if sc["nodata"] and name in ("uvh5", "uvfits", "calh5"):
        kw["read_data"] = False

    def go(o, **k):
        return fm.read(path, obj=o, **kw, **k)

    return (UVCal if name in fmts.CAL else UVData), go


EXC = {"memory": lambda: MemoryError("injected"), "oserror": lambda: OSError(5, "injected"), "interrupt": lambda: KeyboardInterrupt("injected")}


def outcome(fn):
    try:
        return snap.snap(fn()), None
    except Exception as e:  # noqa: BLE001
        return None, e


def run(sc, ctx):
    name = sc["name"]
    if name == "direct":
        return direct(sc, ctx)
    path = old = None
    if name in fmts.ALL:
        fm, make = fmts.ALL[name], fmts.maker(name)
        for which in ("cfg", "old"):
            p = ctx.path(which + fm.ext())
            _, exc = ctx.attempt(lambda: fm.write(make(sc[which]), p))
            if exc is not None:
                ctx.stats["skipped"] += 1
                return
            if sc["strip"]:
                strip(name, p)
        path, old = ctx.path("cfg" + fm.ext()), ctx.path("old" + fm.ext())
    cls, read = reader(sc, name, path)
    ref = cls()
    want, werr = outcome(lambda: read(ref, background_lsts=False))
    if werr is None:
        lsts(sc, ctx, name, ref)
    for s in sc["runs"]:
        obj = cls()
        if s["used"] and old is not None:
            o2, exc = ctx.attempt(lambda: reader(sc, name, old)[1](cls(), background_lsts=False))
            obj = o2 if exc is None else obj
        one(sc, ctx, name, obj, read, s, want, werr)


def lsts(sc, ctx, name, o):
    """The LSTs are those of the times the object holds."""
    from pyuvdata import utils

    if o.telescope.location is None or name in fmts.ALL and not sc["strip"]:
        return
    t, g = (o.time_array, o.lst_array) if o.time_array is not None else (o.time_range, o.lst_range)
    w = utils.get_lst_for_time(jd_array=t, telescope_loc=o.telescope.location)
    d = np.abs((np.asarray(g) - w + np.pi) % (2 * np.pi) - np.pi)
    ctx.check(np.shape(g) == np.shape(w) and np.all(d < 5e-6), f"lst:{name}", lambda: f"{name}: the LSTs do not belong to the times: off by up to {d.max():.3g} rad")


def one(sc, ctx, name, obj, read, s, want, werr):
    what = f"{name} read with the thread scheduled by seed {s['seed']}"
    sim = sched.Sched(s["seed"], P[s["p"]], s["start"])
    if s.get("tfault"):
        sim.fault = (s["tfault"][0], EXC[s["tfault"][1]]())
    if "mfault" in s:
        # dry run: the number of events of the main task
        dry = sched.Sched(s["seed"], (0.0, 0.0), 0.0)
        with dry:
            outcome(lambda: read(type(obj)(), background_lsts=True))
            dry.finish()
        sim.main.fault = (max(1, int(s["mfault"] * dry.main.n)), KeyboardInterrupt("injected"))
    got = exc = None
    with sim:
        try:
            got = read(obj, background_lsts=True)
        except BaseException as e:  # noqa: BLE001
            exc = e
        sys.settrace(None)
        sim.main.fault = None
        after = snap.snap(obj)
        unfinished = [t for t in sim.tasks[1:] if not t.done]
        sim.finish()
    late = snap.snap(obj)
    ctx.stats["sim_steps"] += sim.n
    ctx.stats["switches"] += sim.switches
    ctx.stats["threads"] += sim.spawned
    ctx.mix(name, sim.trace, type(exc).__name__)
    tfault = any(t.where for t in sim.tasks[1:])
    if tfault:
        ctx.stats[f"fault:thread-{s['tfault'][1]}"] += 1
    mfault = sim.main.where is not None
    if mfault:
        ctx.stats["fault:interrupt"] += 1
    if exc is not None and not (tfault or mfault):
        ctx.check(werr is not None and type(werr) is type(exc), f"read-raises:{name}", lambda: f"{what} raised {type(exc).__name__}: {str(exc)[:200]}; without the thread "
                  + ("it returns" if werr is None else f"it raises {type(werr).__name__}"))
        return
    if exc is None:
        ctx.check(werr is None, f"read-returns:{name}", lambda: f"{what} returned; without the thread it raises {type(werr).__name__}: {str(werr)[:100]}")
        extra = "" if not tfault else f" although the thread failed at {[t.where for t in sim.tasks[1:]]}"
        ctx.check(got is None or got is obj, f"harness:{name}", "reader returned another object")
        ctx.same(snap.diff(want, after, strict_dtype=True, ignore=("filename",)), f"schedule:{name}", f"{what}{extra} returned another object than without the thread")
        if unfinished:
            ctx.stats["unjoined"] += 1
        ctx.same(snap.diff(after, late, strict_dtype=True), f"late:{name}", f"{what} returned an object that its thread changed afterwards")
    elif werr is None:
        # after a failed read the object can be used for the next read
        sim2 = sched.Sched(s["seed"] + 1, P[s["p"]], s["start"])
        with sim2:
            _, e2 = ctx.attempt(lambda: read(obj, background_lsts=True))
            sim2.finish()
        ctx.check(e2 is None, f"retry:{name}", lambda: f"{name}: reading again after a failed read raised {type(e2).__name__}: {str(e2)[:200]}")
        ctx.same(snap.diff(want, snap.snap(obj), strict_dtype=True, ignore=("filename",)), f"retry:{name}", f"{name}: reading again after a failed read gave another object")


def direct(sc, ctx):
    """set_lsts_from_time_array(background=True) on objects in memory, several at a time."""
    fm = sc["fmt"]
    make = fmts.maker(fm)
    base = [make(sc["cfg"])] + ([make(sc["old"])] if sc["two"] else [])
    want = []
    for o in base:
        c = o.copy()
        c.set_lsts_from_time_array()
        want.append(snap.snap(c))
    for s in sc["runs"]:
        objs_ = [o.copy() for o in base]
        for o in objs_:
            if o.lst_array is not None:
                o.lst_array = o.lst_array * 0 + 1.5
        sim = sched.Sched(s["seed"], P[s["p"]], s["start"])
        if s.get("tfault"):
            sim.fault = (s["tfault"][0], EXC[s["tfault"][1]]())
        exc = None
        with sim:
            try:
                ts = [o.set_lsts_from_time_array(background=True) for o in objs_]
                for t in ts:
                    t.join()
            except BaseException as e:  # noqa: BLE001
                exc = e
                sim.finish()
        tf = any(t.where for t in sim.tasks[1:])
        ctx.stats["sim_steps"] += sim.n
        ctx.stats["switches"] += sim.switches
        ctx.stats["threads"] += sim.spawned
        ctx.mix("direct", sim.trace)
        if tf:
            ctx.stats[f"fault:thread-{s['tfault'][1]}"] += 1
            ctx.check(exc is not None, "thread-failure-lost:direct", f"the background thread failed at {[t.where for t in sim.tasks[1:]]} and joining it reported nothing")
            continue
        ctx.check(exc is None, "direct-raises", lambda: f"joining the background thread raised {type(exc).__name__}: {str(exc)[:200]}")
        for o, w in zip(objs_, want):
            ctx.same(snap.diff(w, snap.snap(o), strict_dtype=True), "schedule:direct", "the LSTs computed in the background differ from those computed at once")
