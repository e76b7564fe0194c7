"""C13: lazy metadata handles answer what the file says, whatever was done with them before."""
import copy
import gc
import os
import pickle

import numpy as np

from .. import disk, fmts, interrupt, objs, snap, wcommon
from .c06 import tree

RUNS = {"quick": 1800, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "kernel tmpfs"]
STUB = ["read failures (interposed libc layer)", "the instant of an interrupt (line-event seam)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5")}

UVH5 = ["Nblts", "Ntimes", "Nbls", "Npols", "Nspws", "Nfreqs", "Nants_data", "Nants_telescope", "time_array", "lst_array", "ant_1_array",
        "ant_2_array", "baseline_array", "freq_array", "channel_width", "integration_time", "uvw_array", "polarization_array", "spw_array",
        "flex_spw_id_array", "phase_center_catalog", "phase_center_id_array", "phase_center_app_ra", "phase_center_frame_pa", "Nphase",
        "antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters", "history", "telescope_name", "instrument", "x_orientation",
        "vis_units", "pol_convention", "dut1", "rdate", "eq_coeffs", "eq_coeffs_convention", "uvplane_reference_time", "extra_keywords",
        "times", "lsts", "blt_order", "blts_are_rectangular", "time_axis_faster_than_bls", "antpairs", "unique_antpair_1_array",
        "unique_antpair_2_array", "unique_baseline_array", "unique_ants", "pols", "telescope_location", "telescope_location_lat_lon_alt",
        "telescope_location_lat_lon_alt_degrees", "antpos_enu", "telescope", "telescope_frame", "ellipsoid", "no_such_attribute",
        "header", "datagrp", "has_key", "telescope_location_obj"]
CALH5 = ["Ntimes", "Njones", "Nspws", "Nfreqs", "Nants_data", "Nants_telescope", "time_array", "time_range", "lst_array", "lst_range", "ant_array",
         "freq_array", "channel_width", "integration_time", "jones_array", "spw_array", "flex_spw_id_array", "phase_center_catalog",
         "phase_center_id_array", "antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters", "history", "telescope_name",
         "x_orientation", "cal_style", "cal_type", "gain_convention", "gain_scale", "wide_band", "ref_antenna_name", "sky_catalog", "observer",
         "diffuse_model", "Nsources", "extra_keywords", "pols", "telescope_location", "telescope_location_lat_lon_alt", "antpos_enu", "telescope",
         "telescope_location_lat_lon_alt_degrees", "telescope_frame", "no_such_attribute", "header", "datagrp", "has_key", "pol_convention", "scan_number_array"]
METHODS = ("header", "datagrp", "has_key")
DERIVED = ("antpairs", "unique_antpair_1_array", "unique_antpair_2_array", "unique_baseline_array", "times", "lsts", "unique_ants")


def gen(rng, i, tier):
    f = rng.choice(["uvh5", "uvh5", "calh5"])
    files = []
    for _ in range(rng.choice([1, 1, 2])):
        c = fmts.generator(f)(rng)
        c["flexjones"] = False
        c["scan"] = c.get("scan", False) and f == "calh5"
        old = sorted(rng.sample(["lst", "order", "rect"], rng.choice([0, 0, 1, 2, 3])))
        files.append({"cfg": c, "old": old, "hint": sorted(rng.sample(["order", "rect", "fast", "recount"], rng.choice([0, 0, 0, 1, 2]))) if f == "uvh5" else []})
    names = UVH5 if f == "uvh5" else CALH5
    steps = []
    few = rng.sample(names, rng.randint(2, 6))  # (repeated accesses to the same things are the interesting ones)
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        st = {"h": rng.randrange(6)}
        attr = rng.choice(few if rng.random() < 0.4 else names)
        if r < 0.36:
            st.update(op="get", attr=attr)
        elif r < 0.50:
            st.update(op="trans", attr=attr, cache=rng.random() < 0.5)
        elif r < 0.56:
            st.update(op="forget", attr=attr)
        elif r < 0.63:
            st.update(op="close")
        elif r < 0.68:
            st.update(op="open")
        elif r < 0.73:
            st.update(op=rng.choice(["pickle", "copy", "deepcopy"]))
        elif r < 0.77:
            st.update(op="drop")
        elif r < 0.81:
            st.update(op="new", f=rng.randrange(len(files)), how=rng.choice(["path", "Path", "file", "group", "again"]))
        elif r < 0.84:
            st.update(op="object", data=rng.random() < 0.5)
        elif r < 0.94:
            st.update(op=rng.choice(["get", "trans"]), attr=attr, cache=True, faults=[disk.gen_read_fault(rng)])
        else:
            st.update(op=rng.choice(["get", "trans"]), attr=attr, cache=True, at=interrupt.gen_point(rng), kind=rng.choice(["interrupt", "memory"]))
        steps.append(st)
    return {"fmt": f, "files": files, "steps": steps}


def truth(obj, fmt):
    """What the file has to say, from the object that was written."""
    t = {}
    tel = obj.telescope
    names = UVH5 if fmt == "uvh5" else CALH5
    for a in names:
        if a in METHODS or a in DERIVED:
            continue
        if a in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters", "instrument", "x_orientation"):
            t[a] = getattr(tel, a)
        elif a == "telescope_name":
            t[a] = tel.name
        elif a == "Nants_telescope":
            t[a] = tel.Nants
        elif a == "telescope_location_obj":
            t[a] = tel.location
        elif hasattr(obj, a):
            t[a] = getattr(obj, a)
    t["no_such_attribute"] = None
    t["telescope_frame"], t["ellipsoid"] = "itrs", None
    loc = tel.location
    t["telescope_location"] = np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])
    deg = (loc.lat.deg, loc.lon.deg, loc.height.to_value("m"))
    t["telescope_location_lat_lon_alt_degrees"] = deg
    t["telescope_location_lat_lon_alt"] = (np.deg2rad(deg[0]), np.deg2rad(deg[1]), deg[2])
    t["antpos_enu"] = obj.telescope.get_enu_antpos()
    t["telescope"] = tel
    if fmt == "uvh5":
        a1, a2 = obj.ant_1_array.tolist(), obj.ant_2_array.tolist()
        pairs = sorted(set(zip(a1, a2)))
        t["antpairs"] = pairs
        t["unique_ants"] = set(a1) | set(a2)
        t["times"], t["lsts"] = np.unique(obj.time_array), np.unique(obj.lst_array)
        t["unique_baseline_array"] = np.unique(obj.baseline_array)
        t["pols"] = obj.get_pols()
        # rectangular: the blts are all pairs for each time, or all times for each pair
        blt = list(zip(obj.time_array.tolist(), a1, a2))
        nt, nb = len(set(obj.time_array.tolist())), len(pairs)
        rect, fast = False, False
        if len(blt) == nt * nb:
            tt = [x[0] for x in blt]
            bb = [x[1:] for x in blt]
            byt = all(len(set(tt[k * nb:(k + 1) * nb])) == 1 and bb[k * nb:(k + 1) * nb] == bb[:nb] for k in range(nt))
            byb = all(len(set(bb[k * nt:(k + 1) * nt])) == 1 and tt[k * nt:(k + 1) * nt] == tt[:nt] for k in range(nb))
            rect = byt or byb
            fast = byb and (not byt or nb == nt == 1)
        t["blts_are_rectangular"], t["time_axis_faster_than_bls"] = rect, fast
        t["both"] = len(blt) == nt * nb and 1 in (nt, nb)
    else:
        from pyuvdata import utils

        t["pols"] = utils.jnum2str(obj.jones_array, x_orientation=tel.x_orientation)
    return t


def ask(h, attr, t, fmt):
    """Access one attribute (or method)."""
    if attr == "header":
        return sorted(h.header)
    if attr == "datagrp":
        return sorted((k, h.datagrp[k].shape) for k in h.datagrp)
    if attr == "has_key":
        if fmt == "uvh5":
            p = t["antpairs"][0]
            u = sorted(t["unique_ants"])
            return [h.has_key(tuple(p)), h.has_key((p[1], p[0])), h.has_key((99991, p[0])), h.has_key((*p, t["pols"][0])), h.has_key((*p, "qq")), h.has_key((u[-1] + 1, u[0]))]
        return [h.has_key(int(t["ant_array"][0])), h.has_key(99991), h.has_key(int(t["ant_array"][0]), int(t["jones_array"][0])), h.has_key(jpol=77), h.has_key()]
    return getattr(h, attr)


TOL = {"antpos_enu": (0, 1e-6), "lst_array": (0, 1e-9), "lsts": (0, 1e-9), "lst_range": (0, 1e-9), "telescope_location": (0, 1e-6), "telescope": (0, 1e-6),
       "telescope_location_obj": (0, 1e-6), "telescope_location_lat_lon_alt": (1e-12, 1e-6), "telescope_location_lat_lon_alt_degrees": (1e-12, 1e-6)}


def differs(attr, want, got):
    tol = TOL.get(attr)
    return snap.diff(want, got, path=attr, tol=(lambda p: tol) if tol else None)


def canon(attr, v):
    """An answer in comparable form."""
    if attr in ("times", "lsts", "unique_baseline_array"):
        v = np.sort(v)
    elif attr == "antpairs":
        v = sorted((int(a), int(b)) for a, b in v)
    elif attr in ("unique_ants",):
        v = sorted(int(x) for x in v)
    elif attr in ("pols", "antenna_names"):
        v = [str(x) for x in v]
    elif attr in ("blt_order",):
        v = None if v is None else list(v)
    elif attr in ("blts_are_rectangular", "time_axis_faster_than_bls", "wide_band"):
        v = None if v is None else bool(v)
    elif attr == "channel_width" and v is not None:
        v = np.asarray(v)
    elif attr == "telescope":
        return {k: x for k, x in snap.snap(v).items()}
    return snap.norm(v)


class Handle:
    def __init__(self, obj, f, owner=None):
        self.o, self.f, self.open, self.owner = obj, f, None, owner


def run(sc, ctx):
    import h5py
    from pyuvdata.uvcal import FastCalH5Meta
    from pyuvdata.uvdata import FastUVH5Meta

    name = sc["fmt"]
    fmt = fmts.ALL[name]
    Meta = FastUVH5Meta if name == "uvh5" else FastCalH5Meta
    d = ctx.path("f")
    os.makedirs(d)
    files = []
    for k, fs in enumerate(sc["files"]):
        obj = fmts.maker(name)(fs["cfg"])
        p = os.path.join(d, f"file {k}.{name}")
        fmt.write(obj, p)
        t = truth(obj, name)
        if fs["old"]:
            with h5py.File(p, "r+") as f:
                for o, keys in (("lst", ["lst_array", "lst_range"]), ("order", ["blt_order"]), ("rect", ["blts_are_rectangular", "time_axis_faster_than_bls"])):
                    for key in keys:
                        if o in fs["old"] and key in f["Header"]:
                            del f["Header"][key]
        if name == "calh5" and "lst" in fs["old"]:
            t["lst_array"] = t["lst_range"] = None
        kw = {}
        if name == "uvh5":
            if "order" in fs["old"]:
                t["blt_order"] = None
            if "order" in fs["hint"]:
                # (a file that says nothing; "determine" may or may not find an order)
                if obj.blt_order is not None and "order" in fs["old"]:
                    kw["blt_order"] = tuple(obj.blt_order)
                    t["blt_order"] = obj.blt_order
            if "rect" in fs["hint"]:
                kw["blts_are_rectangular"] = t["blts_are_rectangular"]
                if "fast" in fs["hint"] and t["blts_are_rectangular"] and not t["both"]:
                    kw["time_axis_faster_than_bls"] = t["time_axis_faster_than_bls"]
            if "recount" in fs["hint"]:
                kw["recompute_nbls"] = True
        # the fresh handle's answers: what is asked for first of all
        ref = {}
        for a in UVH5 if name == "uvh5" else CALH5:
            h = Meta(p, **kw)
            try:
                v = ask(h, a, t, name)
            except AttributeError:
                v = AttributeError
            h.close()
            if v is AttributeError:
                ctx.check(t.get(a) is None, f"absent:{name}:{a}", f"{a} is in the file but the handle does not have it")
                ref[a] = AttributeError
                continue
            ref[a] = v if a in METHODS else canon(a, v)
            if a == "has_key":
                w = [True, True, False, True, False, False] if name == "uvh5" else [True, False, True, False, True]
                ctx.check(v == w, f"wrong:{name}:{a}", f"has_key answers {v}, should be {w}")
            elif a in ("unique_antpair_1_array", "unique_antpair_2_array"):
                want = sorted(x[int(a[15]) - 1] for x in t["antpairs"])
                ctx.check(sorted(int(x) for x in v) == want, f"wrong:{name}:{a}", f"{a} is {v}, should be (in some order) {want}")
            elif a == "time_axis_faster_than_bls" and t["both"] or a in METHODS:
                pass
            elif a == "extra_keywords" or a == "phase_center_catalog" or a in t:
                ctx.same(differs(a, canon(a, t[a]) if t[a] is not None else None, ref[a]), f"wrong:{name}:{a}", f"a new handle's {a} differs from what was written")
        whole = snap.snap(fmt.read(p))
        meta = snap.snap(fmt.read(p, read_data=False))
        files.append({"p": p, "t": t, "ref": ref, "kw": kw, "tree": tree(p), "whole": whole, "meta": meta})
    hs = [Handle(Meta(files[0]["p"], **files[0]["kw"]), 0)]
    hs[0].open = False

    def judge(h, attr, v, what):
        f = files[h.f]
        want = f["ref"][attr]
        if v is AttributeError or want is AttributeError:
            ctx.check(v is want, f"history-dependent:{name}:{attr}", f"{attr} {what}: {'missing' if v is AttributeError else v!r}, a new handle says {want!r}")
            return
        ctx.same(snap.diff(want, v if attr in METHODS else canon(attr, v), path=attr), f"history-dependent:{name}:{attr}", f"{attr} {what} differs from a new handle's")

    def access(h, st):
        f = files[h.f]
        if st["op"] == "trans" and st["attr"] not in METHODS:
            return h.o.get_transactional(st["attr"], cache=st["cache"])
        return ask(h.o, st["attr"], f["t"], name)

    for n, st in enumerate(sc["steps"]):
        ctx.stats[f"op:{st['op']}"] += 1
        if not hs:
            hs.append(Handle(Meta(files[0]["p"], **files[0]["kw"]), 0))
            hs[0].open = False
        h = hs[st["h"] % len(hs)]
        op = st["op"]
        trans = op == "trans" and st["attr"] not in METHODS
        if op in ("get", "trans"):
            exc = v = None
            if "faults" in st:
                # how many operations this takes a handle of the same kind
                h2 = pickle.loads(pickle.dumps(h.o))
                dk = disk.Disk(ctx, d)
                dk.start()
                ctx.attempt(lambda: ask(h2, st["attr"], files[h.f]["t"], name))
                base = dk.counts()
                dk.stop()
                h2.close()
                h.o.close()
                dk = disk.Disk(ctx, d)
                with disk.Unraisable():
                    dk.start(st["faults"], base)
                    v, exc = ctx.attempt(lambda: access(h, st))
                    fired = dk.stop()
                if any(fired):
                    ctx.stats["runs_with_fault"] += 1
                h.open = None
            elif "at" in st:
                h2 = pickle.loads(pickle.dumps(h.o))
                with interrupt.Lines() as ln:
                    ctx.attempt(lambda: ask(h2, st["attr"], files[h.f]["t"], name))
                h2.close()
                tgt = ln.pick(*st["at"])
                with interrupt.Lines(tgt, st["kind"]) as ln2:
                    try:
                        v = access(h, st)
                    except BaseException as e:  # noqa: BLE001
                        exc = e
                ctx.stats["sim_steps"] += ln2.n
                if ln2.fired:
                    ctx.stats[f"fault:{st['kind']}"] += 1
                    ctx.check(exc is not None, f"swallowed-interrupt:{name}", f"an injected {st['kind']} at {ln2.where} was swallowed")
                h.open = None
                trans = trans and not ln2.fired
            else:
                v, exc = ctx.attempt(lambda: access(h, st))
                if isinstance(exc, AttributeError):
                    v, exc = AttributeError, None
                ctx.check(exc is None, f"access-raises:{name}:{st['attr']}", lambda: f"{st['attr']} raised {exc!r} in step {n}")
            ctx.mix(op, st["attr"], type(exc).__name__)
            if exc is None:
                judge(h, st["attr"], v, f"(step {n}{', under faults' if 'faults' in st else ''})")
            elif isinstance(exc, AttributeError):
                ctx.check(files[h.f]["ref"][st["attr"]] is AttributeError, f"error-as-absent:{name}:{st['attr']}",
                          lambda: f"a failed read of {st['attr']} looks like a missing attribute: {exc}")
            else:
                ctx.stats["failed_accesses"] += 1
            exc = v = None
            h.open = None
            if trans:
                ctx.check(not h.o.is_open(), f"left-open:{name}", "get_transactional left the file open")
                h.open = False
        elif op == "forget":
            h.o.__dict__.pop(st["attr"], None) if st["attr"] not in h.o.__dict__ else delattr(h.o, st["attr"])
        elif op == "close":
            h.o.close()
            ctx.check(not h.o.is_open(), f"left-open:{name}", "a closed handle says it is open")
            h.open = False
        elif op == "open":
            h.o.open()
            ctx.check(h.o.is_open(), f"not-open:{name}", "an opened handle says it is closed")
            h.open = True
        elif op in ("pickle", "copy", "deepcopy"):
            o = pickle.loads(pickle.dumps(h.o)) if op == "pickle" else getattr(copy, op)(h.o)
            ctx.check(not o.is_open(), f"copy-open:{name}", f"a {op} of a handle shares its file")
            ctx.check(o == h.o and hash(o) == hash(h.o), f"copy-unequal:{name}", f"a {op} is not equal to its original")
            hs.append(Handle(o, h.f))
            h.open = None
        elif op == "drop":
            hs.remove(h)
            h.o = None
            h = None
            gc.collect()
        elif op == "new":
            f = files[st["f"]]
            how = st["how"]
            if how in ("file", "group"):
                fh = h5py.File(f["p"], "r")
                o = Meta(fh if how == "file" else fh["Header"], **f["kw"])
                del fh
                op_ = True
            else:
                o = Meta(f["p"] if how == "path" else __import__("pathlib").Path(f["p"]), **f["kw"])
                op_ = False
            for other in hs:
                same = other.f == st["f"]
                ctx.check((o == other.o) == same, f"equality:{name}", "handles on the same file are unequal" if same else "handles on different files are equal")
                if same:
                    ctx.check(hash(o) == hash(other.o), f"hash:{name}", "equal handles have different hashes")
                other.open = None
            hs.append(Handle(o, st["f"]))
            hs[-1].open = None if not op_ else True
        else:
            f = files[h.f]
            if st["data"]:
                o = fmt_read(fmt, h.o)
                want = f["whole"]
            else:
                o = h.o.to_uvdata() if name == "uvh5" else h.o.to_uvcal()
                want = f["meta"]
            ctx.same(snap.diff(want, snap.snap(o), strict_dtype=True, ignore=tuple(f["kw"]), tol=lambda p: (1e-12, 1e-9) if "lst" in p else None), f"object:{name}",
                     "an object read through the handle differs from one read through the path")
            h.open = None
        o = other = h2 = None
        if h is not None and h.open is not None and op not in ("get", "trans"):
            ctx.check(h.o.is_open() == h.open, f"is-open:{name}", f"after {op}: is_open() is {h.o.is_open()}")
    for h in hs:
        h.o.close()
        ctx.check(not h.o.is_open(), f"left-open:{name}", "a closed handle says it is open")
    gc.collect()
    left = wcommon.fds(d)
    ctx.check(not left, f"fd-leak:{name}", lambda: f"descriptors open after every handle was closed: {[os.path.basename(x) for x in left]}")
    for h in hs:  # (and they work again)
        for a in ("Ntimes", "freq_array", "history"):
            if files[h.f]["ref"][a] is not AttributeError:
                judge(h, a, ctx.must(lambda: getattr(h.o, a), f"reopen-raises:{name}:{a}", "access after close"), "after close")
        h.o.close()
    for f in files:
        ctx.check(tree(f["p"]) == f["tree"], f"file-changed:{name}", "the handles changed the file")


def fmt_read(fmt, h):
    from pyuvdata import UVCal, UVData

    o = UVData() if fmt.name == "uvh5" else UVCal()
    (o.read_uvh5 if fmt.name == "uvh5" else o.read_calh5)(h)
    return o
