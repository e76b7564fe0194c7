"""C10: selecting, while reading or afterwards, leaves exactly the selected values with their labels."""
import gc
import os

import numpy as np

from .. import canon, disk, fmts, sel, snap
from .c07 import FitsRead

RUNS = {"quick": 2600, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "casacore", "kernel tmpfs"]
STUB = ["read failures and short reads (interposed libc layer; FITS data read instead of mapped)"]
NAMES = ["uvh5", "uvfits", "calh5", "beamfits", "uvh5", "uvflag", "calfits", "miriad", "miriad", "ms", "calh5", "uvfits", "beamfits"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}
IDX = {"uvh5": sel.idx_uvd, "uvfits": sel.idx_uvd, "ms": sel.idx_uvd, "miriad": sel.idx_uvd, "calh5": sel.idx_uvc, "calfits": sel.idx_uvc,
       "beamfits": sel.idx_uvb, "uvflag": sel.idx_uvf}


def gen(rng, i, tier):
    f = NAMES[i % len(NAMES)]
    fmt = fmts.ALL[f]
    kw = fmt.gen_kw(rng)
    cfg = fmts.generator(f)(rng)
    fmt.adjust(cfg, kw)
    if "nfreqs" in cfg and cfg.get("nspw", 1) == 1 and rng.random() < 0.6:
        cfg["nfreqs"] = max(cfg["nfreqs"], 4)
    if "ntimes" in cfg and not cfg.get("trange"):
        cfg["ntimes"] = max(cfg["ntimes"], 2)
    sc = {"fmt": f, "cfg": cfg, "kw": kw, "sel": sel.gen(rng, 4), "chain": [sel.gen(rng) for _ in range(rng.choice([0, 0, 1, 2]))], "rkw": {},
          "keep": rng.random() < 0.8, "meta": rng.random() < 0.15, "md": rng.random() < 0.3, "range": [round(rng.random(), 3) for _ in range(6)],
          "inplace": rng.random() < 0.5, "faults": [],
          "form": rng.choice(["list", "list", "array", "scalar", "twice"])}
    sc["mem"] = rng.random() < (0.3 if f == "beamfits" else 0.1)
    if f == "beamfits":
        cfg["phased"] = sc["mem"] and rng.random() < 0.7
    if rng.random() < 0.5:
        ft = disk.gen_read_fault(rng)
        if rng.random() < 0.6 and ft["mask"] == "READ":
            ft.update(kind="short", persist=True)
            ft.pop("err", None)
        if f not in ("ms", "miriad"):
            sc["faults"] = [ft]
    return sc


LISTS = ("antenna_nums", "antenna_names", "times", "lsts", "frequencies", "freq_chans", "blt_inds", "phase_center_ids", "jones", "spws", "axis1_inds",
         "axis2_inds", "pixels", "polarizations", "feeds", "catalog_names", "ant_inds")


SCALARS = ("antenna_nums", "times", "lsts", "frequencies", "freq_chans", "phase_center_ids", "polarizations", "jones", "spws")


def reform(f, form, kw):
    """The same selection in another form that is accepted: arrays, single values, values given twice."""
    out = dict(kw)
    for k in LISTS:
        if k in out and f != "miriad":
            v = out[k]
            if form == "array":
                out[k] = np.array(v)
            elif form == "scalar" and len(v) == 1 and k in SCALARS and not isinstance(v[0], str):
                out[k] = v[0]
            elif form == "twice" and f != "uvflag":
                out[k] = list(v) + [v[0]]
    return out


IGN = ("history", "filename", "blts_are_rectangular", "time_axis_faster_than_bls")


def run(sc, ctx):
    with FitsRead():
        _run(sc, ctx)


def beam_ranges(sc, s, rkw):
    """Ranges for read_beamfits and the indices they stand for."""
    r = sc["range"]
    ix = {}

    def rng_of(v, a, b, scale=1.0):
        i = int(r[a] * len(v))
        j = i + int(r[b] * (len(v) - i))
        pad = 0.2 * (abs(v[1] - v[0]) if len(v) > 1 else 1.0)
        return [float((v[i] - pad) * scale), float((v[j] + pad) * scale)], np.arange(i, j + 1)

    if r[0] < 0.7:
        rkw["freq_range"], ix["Nfreqs"] = rng_of(s["freq_array"], 1, 2)
    if s["pixel_coordinate_system"] == "az_za":
        if r[1] < 0.6:
            rkw["az_range"], ix["Naxes1"] = rng_of(s["axis1_array"], 2, 3, 180 / np.pi)
        if r[2] < 0.6:
            rkw["za_range"], ix["Naxes2"] = rng_of(s["axis2_array"], 4, 5, 180 / np.pi)
    return ix


def _run(sc, ctx):
    f = sc["fmt"]
    fmt = fmts.ALL[f]
    make = fmts.maker(f)
    d = ctx.path("f")
    os.makedirs(d)
    p = os.path.join(d, "out." + fmt.ext())
    obj = make(sc["cfg"])
    mem = sc.get("mem")
    if not mem:
        ctx.must(lambda: fmt.write(obj, p, **sc["kw"]), f"write-raises:{f}", "fault-free write")
    uvdata = f in ("uvh5", "uvfits", "ms", "miriad")
    base = {}
    if uvdata:
        base = {"file_type": f, "check_autos": False}
        if f == "ms":
            base["ignore_single_chan"] = False
    elif f == "beamfits":
        base = {"check_auto_power": False}

    def read(**kw):
        u = type(obj)()
        if f == "beamfits":
            u.read_beamfits(p, **base, **kw)
        elif f == "uvflag":
            u.read(p)
        elif f in ("calh5", "calfits"):
            u.read(p, file_type=f, **kw)
        else:
            u.read(p, **base, **kw)
        return u

    dk = disk.Disk(ctx, d)
    dk.start()
    full = obj if mem else ctx.must(read, f"read-raises:{f}", "fault-free read")
    cnt = dk.counts()
    dk.stop()
    s = snap.snap(full)
    fm = sel.forms(full)
    kw, ix = IDX[f](sc["sel"], s)
    if f == "miriad" and (("blt_inds" in kw or "antenna_names" in kw) and len(kw) > 1 or any(not isinstance(b, tuple) for b in kw.get("bls", []))):
        ctx.stats["skipped"] += 1
        return  # documented: blt_inds then refer to what is left by the other criteria
    if not kw:
        ctx.stats["skipped"] += 1
        return
    if any(len(v) == 0 for v in ix.values()):
        # nothing is left: this has to be refused, and never taken for no selection at all
        ctx.stats["empty_selection"] += 1
        _, exc = ctx.attempt(lambda: _select(full, False, kw))
        ctx.check(exc is not None, f"empty-accepted:{f}", lambda: f"select({kw}), which leaves nothing, returned normally")
        if not mem and (uvdata or f in ("calh5", "calfits")):
            _, exc = ctx.attempt(lambda: read(**kw))
            ctx.check(exc is not None, f"empty-accepted:{f}", lambda: f"read({kw}), which leaves nothing, returned normally")
        return
    kw = reform(f, sc["form"], kw)
    extra = {}
    if uvdata and not sc["keep"] and f != "miriad":
        extra["keep_all_metadata"] = False
    # selection in memory
    ref = full.copy()
    skw = dict(extra)
    if f == "beamfits":
        pass
    sel1 = ctx.must(lambda: _select(ref, sc["inplace"], {**kw, **skw}), f"select-raises:{f}", f"select({sorted(kw)})")
    judge(ctx, f, s, fm, ix, sel1, f"select({sorted(kw)})", drop=bool(extra))
    if not sc["inplace"]:
        ctx.same(snap.diff(s, snap.snap(ref), strict_dtype=True), f"operand:{f}", "select(inplace=False) changed the object")
    # selection while reading
    rkw = dict(extra)
    if f == "beamfits" and not mem:
        ix2 = beam_ranges(sc, s, rkw)
        if not rkw:
            ix2 = None
        on_read, want = rkw, None
    elif f == "uvflag" or mem:
        ix2 = None
    else:
        ix2, on_read, want = ix, {**rkw, **kw}, sel1
        if f == "uvh5" and sc["md"]:
            on_read["multidim_index"] = True
    if ix2 is not None:
        dk = disk.Disk(ctx, d)
        dk.start(sc["faults"], cnt)
        got, exc = ctx.attempt(lambda: read(**on_read))
        fired = dk.stop()
        hard = any(n and x["kind"] == "err" for n, x in zip(fired, sc["faults"]))
        if any(fired):
            ctx.stats["runs_with_fault"] += 1
        if exc is not None:
            if f == "miriad" and "time_range" in kw and len(set(s["integration_time"].tolist())) > 1 and "No data" in str(exc):
                ctx.known.append("miriad-time-range-first-integration-time")
                return
            if f == "miriad" and "times" in kw and len(kw) > 1 and "is not present in the" in str(exc):
                ctx.stats["skipped"] += 1
                return  # (the times are looked up in what the other criteria leave: a refusal)
            if not hard:
                ctx.must(lambda: (_ for _ in ()).throw(exc), f"read-raises:{f}", f"read({sorted(on_read)})")
            ctx.stats["failed_reads"] += 1
            exc = None
            gc.collect()
            got = ctx.must(lambda: read(**on_read), f"retry-raises:{f}", "partial read after the fault")
        if f == "miriad" and "time_range" in kw and len(set(s["integration_time"].tolist())) > 1 and got.Nblts != len(ix["Nblts"]):
            ctx.known.append("miriad-time-range-first-integration-time")
            return
        judge(ctx, f, s, fm, ix2, got, f"partial read {on_read}", drop=bool(extra))
        if want is not None:
            a, b = snap.snap(want), snap.snap(got)
            ign = IGN
            if f == "miriad":
                a, b = canon.canon_uvd(a), canon.canon_uvd(b)
                ign += ("phase_center_catalog",)  # a track is known at the times that were read
            if extra and all(len(v) == len(set(range(s[k]))) for k, v in ix.items()):
                ign += ("telescope", "eq_coeffs")  # nothing is dropped, so nothing has to go with it
            ctx.same(snap.diff(a, b, ignore=ign, tol=_t), f"read-vs-select:{f}", f"read({sorted(on_read)}) differs from read and select")
        ctx.stats["partial_reads"] += 1
    # further selections compose
    cur, cs = sel1, snap.snap(sel1)
    for x in sc["chain"]:
        kw2, ixn = IDX[f](x, cs)
        if any(len(v) == 0 for v in ixn.values()) or not kw2:
            continue
        cur2 = ctx.must(lambda: _select(cur, sc["inplace"], kw2), f"select-raises:{f}", f"select({sorted(kw2)}) after {sorted(kw)}")
        judge(ctx, f, cs, sel.forms(cur2), ixn, cur2, f"select({sorted(kw2)}) after {sorted(kw)}")
        cur, cs = cur2, snap.snap(cur2)


def _t(path):
    last = path.rsplit(".", 1)[-1]
    if last in ("uvw_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "lst_array"):
        return (0, 1e-6)
    return None


def _select(obj, inplace, kw):
    if type(obj).__name__ == "UVBeam" and False:
        kw = dict(kw)
    if inplace:
        obj = obj.copy()
        obj.select(**kw)
        return obj
    return obj.select(inplace=False, **kw)


def judge(ctx, f, s, fm, ix, got, what, drop=False):
    """The object against the model of the selection."""
    g = snap.snap(got)
    want = sel.model(s, fm, ix)
    if "eq_coeffs" in want and drop:
        nums, left = s["telescope"]["antenna_numbers"].tolist(), set(g["ant_1_array"].tolist()) | set(g["ant_2_array"].tolist())
        kept = set(g["telescope"]["antenna_numbers"].tolist())
        if "Nblts" in ix and (len(ix["Nblts"]) < s["Nblts"] or kept != set(nums)):  # (when all rows stay nothing has to go)
            want["eq_coeffs"] = want["eq_coeffs"][[i for i, a in enumerate(nums) if a in left]]
    ctx.stats["selections"] += 1
    if f == "miriad":
        # the order of the blts of a partial read is its own: compare as sets of rows
        if "Nblts" in g and "time_array" in g:
            def order(x):
                t = np.round((x["time_array"] - 2450000.0) * 86400.0 * 100).astype(np.int64)
                return np.lexsort((x["ant_2_array"], x["ant_1_array"], t))

            def reorder(x, o):
                return {k: (v[o] if isinstance(v, np.ndarray) and k in fm and fm[k] and fm[k][0] == "Nblts" else v) for k, v in x.items()}
            if "time_array" in want:
                want = reorder(want, order(want))
                g = reorder(g, order(g))
            else:
                o1 = order(s)
                s = reorder(s, o1)
                want = reorder(sel.model(s, fm, ix), slice(None))
                g = reorder(g, order(g))
    bad = []
    for k, v in want.items():
        if k not in g:
            continue
        if f in ("miriad",) and k in ("uvw_array", "lst_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array"):
            continue
        if k in ("total_quality_array",) and "Nants_data" in ix:
            continue
        bad += snap.diff(v, g[k], path=k)
    ctx.same(bad, f"selected:{f}", what)
    # the counts follow from the labels
    cnt = {}
    if "ant_1_array" in g and g.get("ant_1_array") is not None:
        cnt["Nants_data"] = len(set(g["ant_1_array"].tolist()) | set(g["ant_2_array"].tolist()))
        cnt["Nbls"] = len(set(zip(g["ant_1_array"].tolist(), g["ant_2_array"].tolist())))
        cnt["Ntimes"] = len(set(g["time_array"].tolist()))
        cnt["Nblts"] = len(g["ant_1_array"])
    if g.get("flex_spw_id_array") is not None:
        cnt["Nspws"] = len(set(g["flex_spw_id_array"].tolist()))
    for k, v in cnt.items():
        if f == "uvflag" and k in ("Nspws",):
            continue
        ctx.check(g.get(k) == v, f"count:{f}", lambda k=k, v=v: f"{what}: {k} is {g.get(k)}, the labels give {v}")
    ctx.mix(what, snap.digest({k: v for k, v in g.items() if k in want}))
    ctx.must(lambda: got.check(**({"check_auto_power": False} if f == "beamfits" else {"check_autos": False} if f in ("uvh5", "uvfits", "ms", "miriad") else {})),
             f"check:{f}", f"check after {what}")
