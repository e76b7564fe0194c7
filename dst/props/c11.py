"""C11: reading a set of files gives the union of what the readable ones hold, and every unreadable one is reported."""
import gc
import os
import random
import warnings

import numpy as np

from .. import disk, fmts, merge, snap
from .c07 import FitsRead

RUNS = {"quick": 1800, "thorough": 40000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "casacore", "kernel tmpfs"]
STUB = ["read failures (interposed libc layer; FITS data read instead of mapped)", "damaged files are made by cutting and overwriting real ones"]
NAMES = ["uvh5", "uvfits", "calh5", "beamfits", "uvflag", "miriad", "uvh5", "calfits", "ms", "uvh5", "beamfits", "mscal"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}
UV = ("uvh5", "uvfits", "ms", "miriad")
SKIPS = UV + ("beamfits",)
BAD = ["missing", "empty", "cut", "head", "text", "dir", "eio", "open"]


def gen(rng, i, tier):
    f = NAMES[i % len(NAMES)]
    fmt = fmts.ALL[f]
    cfg = fmts.generator(f)(rng)
    fmt.adjust(cfg, {})
    if cfg.get("nspw", 1) == 1 and "nfreqs" in cfg:
        cfg["nfreqs"] = max(cfg["nfreqs"], 3)
    if "ntimes" in cfg and not cfg.get("trange"):
        cfg["ntimes"] = max(cfg["ntimes"], 3)
    n = rng.choice([2, 2, 3, 3, 4])
    bad = {}
    if rng.random() < 0.7:
        for j in rng.sample(range(n), rng.choice([1, 1, 1, 2, n])):
            b = rng.choice(BAD)
            bad[str(j)] = {"how": b, "frac": round(rng.random(), 3), "persist": rng.random() < 0.6, "err": rng.choice(["EACCES", "EMFILE", "EIO"])}
    if sum(1 for b in bad.values() if b["how"] in ("eio", "open")) > 1:
        first = [j for j in sorted(bad) if bad[j]["how"] in ("eio", "open")][0]
        bad = {j: b for j, b in bad.items() if b["how"] not in ("eio", "open") or j == first}
    return {"fmt": f, "cfg": cfg, "n": n, "split": rng.randrange(1 << 30), "axis": rng.random(), "order": rng.randrange(1 << 20), "use_axis": rng.random() < 0.35,
            "bad": bad, "skip": rng.random() < 0.75, "sel": rng.randrange(1 << 20) if rng.random() < 0.35 else None, "interleave": rng.random() < 0.4}


def run(sc, ctx):
    with FitsRead():
        _run(sc, ctx)


def parts(rng, n, k, interleave):
    """n things into at most k non-empty parts"""
    k = min(n, k)
    if interleave:
        ix = list(range(n))
        rng.shuffle(ix)
        return [sorted(ix[j::k]) for j in range(k)]
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [n])]


def split(sc, f, obj, axis=None):
    """Pieces of an object along one axis, and the name of this axis for the readers."""
    rng = random.Random(sc["split"])
    k = sc["n"]
    if f in UV:
        ax = ["time", "bl", "freq", "pol"][int(sc["axis"] * 4)]
        if ax == "pol" and obj.Npols == 1:
            ax = "time"
        if ax == "freq" and (obj.Nfreqs == 1 or f == "uvfits" and obj.Nspws > 1):
            ax = "time"
        if ax == "freq" and obj.Nspws > 1:
            sp = list(dict.fromkeys(obj.flex_spw_id_array.tolist()))
            gs = parts(rng, len(sp), k, False)
            return ax, "freq", [obj.select(freq_chans=np.nonzero(np.isin(obj.flex_spw_id_array, [sp[i] for i in g]))[0], inplace=False) for g in gs]
        if ax in ("time", "bl"):
            if ax == "time":
                v = obj.time_array.tolist()
            else:
                v = list(zip(obj.ant_1_array.tolist(), obj.ant_2_array.tolist()))
            u = sorted(set(v))
            gs = parts(rng, len(u), k, sc["interleave"])
            return ax, "blt", [obj.select(blt_inds=[i for i, x in enumerate(v) if x in {u[j] for j in g}], inplace=False) for g in gs]
        if ax == "freq":
            return ax, "freq", [obj.select(freq_chans=g, inplace=False) for g in parts(rng, obj.Nfreqs, k, False)]
        return ax, "polarization", [obj.select(polarizations=[obj.polarization_array[i] for i in g], inplace=False) for g in parts(rng, obj.Npols, k, False)]
    if f in ("calh5", "calfits", "mscal"):
        ax = ["time", "ant", "freq", "jones"][int(sc["axis"] * 4)]
        if ax == "time" and obj.time_array is None:
            ax = "ant"
        if ax == "freq" and (obj.wide_band or obj.freq_array is None or obj.Nspws > 1):
            ax = "ant"
        if ax == "jones" and (obj.Njones == 1 or obj.flex_jones_array is not None):
            ax = "ant"
        if ax == "ant" and f == "mscal":  # (these files hold every antenna of the telescope)
            if obj.time_array is None:
                return ax, "antenna", [obj]
            ax = "time"
        if ax == "time":
            return ax, "time", [obj.select(times=[obj.time_array[i] for i in g], inplace=False) for g in parts(rng, obj.Ntimes, k, False)]
        if ax == "ant":
            return ax, "antenna", [obj.select(antenna_nums=[obj.ant_array[i] for i in g], inplace=False) for g in parts(rng, obj.Nants_data, k, sc["interleave"])]
        if ax == "freq":
            return ax, "freq", [obj.select(freq_chans=g, inplace=False) for g in parts(rng, obj.Nfreqs, k, False)]
        return ax, "jones", [obj.select(jones=[obj.jones_array[i] for i in g], inplace=False) for g in parts(rng, obj.Njones, k, False)]
    if f == "beamfits":
        ax = ["freq", "freq", "pol"][int(sc["axis"] * 3)]
        n = obj.Npols if obj.beam_type == "power" else obj.Nfeeds
        if ax == "pol" and n == 1:
            ax = "freq"
        if ax == "freq":
            return ax, None, [obj.select(freq_chans=g, inplace=False) for g in parts(rng, obj.Nfreqs, k, False)]
        gs = parts(rng, n, k, False)
        if obj.beam_type == "power":
            return ax, None, [obj.select(polarizations=[obj.polarization_array[i] for i in g], inplace=False) for g in gs]
        return ax, None, [obj.select(feeds=[obj.feed_array[i] for i in g], inplace=False) for g in gs]
    u = sorted(set(obj.time_array.tolist()))
    return "time", None, [obj.select(times=[u[i] for i in g], inplace=False) for g in parts(rng, len(u), k, False)]


def damage(p, b):
    """Damage one file; for directory formats its biggest member."""
    how = b["how"]
    if how in ("eio", "open"):
        return
    if how == "missing":
        fmts.remove(p)
        return
    isdir = os.path.isdir(p)
    if how == "dir":
        fmts.remove(p)
        if isdir:
            with open(p, "w") as f:
                f.write("not a directory")
        else:
            os.makedirs(p)
        return
    t = p
    if isdir:
        fs = sorted((os.path.getsize(os.path.join(p, x)), x) for x in os.listdir(p) if os.path.isfile(os.path.join(p, x)))
        t = os.path.join(p, fs[-1][1])
    n = os.path.getsize(t)
    with open(t, "r+b") as f:
        if how == "empty":
            f.truncate(0)
        elif how == "cut":
            f.truncate(int(n * b["frac"] * 0.9))
        elif how == "head":
            f.seek(0)
            f.write(b"\0" * min(n, 512))
        else:
            f.truncate(0)
            f.write(b"this is not a data file\n" * 50)


def _run(sc, ctx):
    f = sc["fmt"]
    fmt = fmts.ALL[f]
    obj = fmts.maker(f)(sc["cfg"])
    ax, axname, ps = split(sc, f, obj)
    rng = random.Random(sc["order"])
    paths = []
    for j, p in enumerate(ps):
        d = ctx.path(f"d{j}")
        os.makedirs(d)
        paths.append(os.path.join(d, f"piece{j}." + fmt.ext()))
        p.history = obj.history
        _, exc = ctx.attempt(lambda p=p, q=paths[-1]: fmt.write(p, q))
        if exc is not None:
            if "spac" in str(exc) or "uneven" in str(exc).lower() or "single" in str(exc) or "conjugate pols" in str(exc):
                ctx.stats["unwritable_piece"] += 1
                return
            ctx.must(lambda: (_ for _ in ()).throw(exc), f"write-raises:{f}", "fault-free write of a piece")
    order = list(range(len(ps)))
    rng.shuffle(order)
    kw = {}
    if f in UV:
        kw = {"file_type": f, "check_autos": False}
        if f == "ms":
            kw["ignore_single_chan"] = False
        if sc["sel"] is not None:
            r2 = random.Random(sc["sel"])
            what = r2.choice(["pol", "chan", "cat", "ants", "trange"])
            if what == "pol" and ax != "pol":
                kw["polarizations"] = [int(r2.choice(obj.polarization_array.tolist()))]
            elif what == "chan" and ax != "freq" and f != "uvfits":
                kw["freq_chans"] = sorted(r2.sample(range(obj.Nfreqs), r2.randrange(1, obj.Nfreqs + 1)))
            elif what == "cat" and f != "miriad":
                ids = sorted(set(obj.phase_center_id_array.tolist()))
                kw["catalog_names"] = [obj.phase_center_catalog[r2.choice(ids)]["cat_name"]]
            elif what == "ants" and ax in ("freq", "pol"):
                i = r2.randrange(obj.Nblts)
                kw["antenna_nums"] = sorted({int(obj.ant_1_array[i]), int(obj.ant_2_array[i])})
            elif what == "trange" and ax in ("freq", "pol", "bl") and f != "miriad":
                t = sorted(set(obj.time_array.tolist()))
                kw["time_range"] = [t[0] - 1e-5, t[r2.randrange(len(t))] + 1e-5]
    elif f in ("calh5", "calfits", "mscal"):
        kw = {"file_type": "ms" if f == "mscal" else f}
    elif f == "beamfits":
        kw = {"file_type": f, "check_auto_power": False}
    cls = type(obj)

    def read(what, **more):
        u = cls()
        if f == "uvflag":
            u.read(what)
        else:
            u.read(what, **kw, **more)
        return u

    bad = {int(j): b for j, b in sc["bad"].items() if int(j) < len(ps)}
    if f in ("miriad", "ms", "mscal"):
        bad = {j: b for j, b in bad.items() if b["how"] in ("missing",) + (("dir", "empty", "text") if f in ("ms", "mscal") else ())}
    base, cand = None, None
    for j, b in bad.items():
        if b["how"] in ("eio", "open"):
            dk = disk.Disk(ctx, os.path.dirname(paths[j]))
            dk.start()
            ctx.attempt(lambda j=j: read(paths[j]))
            base, cand = dk.counts(), j
            dk.stop()
        damage(paths[j], b)
    # what each file holds when it is read alone
    single, why = {}, {}
    for j in range(len(ps)):
        if j in bad and j != cand:
            o, exc = ctx.attempt(lambda j=j: read(paths[j]))
        else:
            o, exc = ctx.attempt(lambda j=j: read(paths[j]))
            if exc is not None and not any(k in kw for k in ("catalog_names", "antenna_nums", "time_range", "freq_chans", "polarizations")):
                ctx.must(lambda: (_ for _ in ()).throw(exc), f"read-raises:{f}", "fault-free read of a piece")
        if exc is None:
            single[j] = o
            if j in bad and j != cand:
                ctx.stats["readable_damage"] += 1
                return  # (what a damaged file that is still readable holds is judged elsewhere)
        else:
            why[j] = type(exc).__name__
        exc = None
    gc.collect()
    more = {}
    if f in SKIPS and sc["skip"]:
        more["skip_bad_files"] = True
    if sc["use_axis"] and axname is not None:
        more["axis"] = axname
    faults = []
    if cand is not None:
        b = bad[cand]
        faults = [{"mask": "READ" if b["how"] == "eio" else "OPEN_R", "kind": "err", "err": "EIO" if b["how"] == "eio" else b["err"], "frac": b["frac"], "persist": b["persist"]}]
    files = [paths[j] for j in order]
    if rng.random() < 0.3:
        files = tuple(files) if rng.random() < 0.5 or f == "uvflag" else np.array(files)
    dk = disk.Disk(ctx, os.path.dirname(paths[cand]) if cand is not None else ctx.path("none"))
    exc, got = None, None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        dk.start(faults, base)
        got, exc = ctx.attempt(lambda: read(files, **more))
        fired = dk.stop()
    text = "\n".join(str(w.message) for w in ws)
    if any(fired):
        ctx.stats["runs_with_fault"] += 1
        nrep = text.count("Failed to read ")
        if exc is not None or "ALL FILES FAILED" in text or (nrep > len(why) if f == "beamfits" else paths[cand] + " " in text):
            single.pop(cand, None)
            why[cand] = "disk error"
        # else: the error did no harm (C07), and the file has to be there in full
    for j in why:
        ctx.stats[f"fault:file-{bad[j]['how'] if j in bad else 'selects-nothing'}"] += 1
    good = [j for j in order if j in single]
    desc = f"read of {len(ps)} files split along {ax}, {len(good)} readable ({', '.join(f'{j}:{w}' for j, w in sorted(why.items()))}), {sorted(more)} {sorted(kw)}"
    ctx.mix(desc, type(exc).__name__)
    ctx.stats["multi_reads"] += 1
    if why and not (more.get("skip_bad_files")):
        ctx.check(exc is not None, f"bad-file-dropped:{f}", lambda: f"{desc}: returned normally although a file could not be read")
        ctx.stats["refused"] += 1
        return
    if exc is not None:
        if any(k in str(exc) for k in MERGE_ERR) and len(good) > 1:
            # not every partition can be combined: then the plain combination must refuse as well
            _, e2 = ctx.attempt(lambda: _plain([single[j] for j in good], more.get("axis")))
            if e2 is not None:
                ctx.stats["not_combinable"] += 1
                return
        ctx.must(lambda: (_ for _ in ()).throw(exc), f"multi-read-raises:{f}", desc)
    if not good:
        ctx.check("ALL FILES FAILED" in text, f"not-reported:{f}", lambda: f"{desc}: no warning that all files failed")
        ctx.check(got.data_array is None, f"invented-data:{f}", lambda: f"{desc}: the object holds data although no file could be read")
        ctx.stats["all_bad"] += 1
        return
    if len(good) == len(ps):
        ctx.check("Failed to read" not in text, f"false-report:{f}", lambda: f"{desc}: a failure was reported: {text[:200]}")
    lines = [x for x in text.split("\n") if "Failed to read" in x]
    wrong = [j for j in why if not any(paths[j] + " " in x for x in lines)]
    if f == "beamfits" and wrong and len(lines) == len(why) and sum(paths[good[0]] + " " in x for x in lines) == len(wrong):
        ctx.known.append("uvbeam-skip-names-first-file")  # (an existing test asks for this text)
    else:
        ctx.check(not wrong, f"not-reported:{f}", lambda: f"{desc}: files {wrong} were left out without being named; reported {[x[:120].replace(ctx.dir, '') for x in lines]}")
        for j in good:
            ctx.check(not any(paths[j] + " " in x for x in lines), f"false-report:{f}", lambda j=j: f"{desc}: file {j}, which is readable, was reported as failed")
    if len(good) == 1:
        ctx.same(snap.diff(snap.snap(single[good[0]]), snap.snap(got), ignore=("filename", "history", "blts_are_rectangular", "time_axis_faster_than_bls")), f"combined:{f}", desc)
    else:
        merge.check(ctx, [single[j] for j in good], got, f"combined:{f}", desc, order=AX.get(more.get("axis")))


AX = {"blt": "Nblts", "freq": "Nfreqs", "polarization": "Npols", "antenna": "Nants_data", "time": "Ntimes", "jones": "Njones"}
MERGE_ERR = ("ombin", "equal", "match", "Parameter", "not the same", "verlap", "nterspersed")


def _plain(objs, axis):
    a = objs[0].copy()
    if axis is not None:
        return a.fast_concat([o.copy() for o in objs[1:]], axis, inplace=False)
    for o in objs[1:]:
        a = a + o
    return a
