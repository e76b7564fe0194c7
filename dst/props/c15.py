"""C15: operations that return something new leave their operands alone, share nothing with them and agree with their in-place form."""
import copy
import random

import numpy as np

from .. import fmts, interrupt, merge, objs, sel, snap
from . import c17

RUNS = {"quick": 4800, "thorough": 90000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata"]
STUB = ["interrupts and failed allocations (raised at line events of the package)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}
KINDS = ["uvd", "uvc", "uvb", "uvf", "uvd", "x", "uvf", "x"]
# (worked out and kept when they are first needed)
LAZY = ("blts_are_rectangular", "time_axis_faster_than_bls")
REFUSED = (ValueError, NotImplementedError, KeyError, IndexError, TypeError, AssertionError)

OPS = {
    "uvd": ["select", "select", "add", "concat", "sum", "diff", "compress", "copy", "copymeta", "redun", "pickle", "eq", "pure", "names"],
    "uvc": ["select", "select", "add", "concat", "copy", "copymeta", "pickle", "eq", "pure", "names"],
    "uvb": ["select", "add", "power", "pstokes", "healpix", "interp", "copy", "pickle", "eq", "area"],
    "uvf": ["select", "add", "or", "metrics", "copy", "pickle", "eq", "pure", "names"],
    "x": ["calibrate", "calibrate", "applyflag", "applyflag", "flagof", "flagof", "flagofcal", "tobl", "tobl", "toant", "toant", "waterfall", "initcal", "flaglist", "waterfallof"],
}


def gen(rng, i, tier):
    k = KINDS[i % len(KINDS)]
    op = rng.choice(OPS[k])
    kk = {"uvd": "uvd", "uvc": "uvc", "uvb": "uvb", "uvf": "uvf", "x": "uvc" if op in ("flagofcal", "toant") else "uvd"}[k]
    cfg = c17.MAKE[kk][0](rng)
    if kk == "uvb":
        cfg["phased"] = rng.random() < 0.25
    if cfg.get("nspw", 1) == 1 and "nfreqs" in cfg:
        cfg["nfreqs"] = max(cfg["nfreqs"], rng.choice([2, 3, 4]))
    if "ntimes" in cfg and not cfg.get("trange"):
        cfg["ntimes"] = max(cfg["ntimes"], rng.choice([1, 2, 3]))
    if op in ("healpix", "interp"):
        cfg.update(n1=8, n2=rng.choice([4, 5]))
        if rng.random() < 0.7 and cfg["pcs"] == "orthoslant_zenith":
            cfg["pcs"] = "az_za"
    if op in ("power", "pstokes") and rng.random() < 0.8:
        cfg["btype"] = "efield"
    if op in ("applyflag", "tobl") and rng.random() < 0.6:
        cfg.update(rect=True)
    if op == "calibrate":
        cfg.update(xor=cfg["xor"] or "east", pols=rng.choice([[-5], [-5, -6], [-5, -6, -7, -8], [-6, -5]]), units="uncalib" if rng.random() < 0.6 else cfg["units"], nspw=1)
    return {"kind": k, "op": op, "cfg": cfg, "seed": rng.randrange(1 << 30), "clash": rng.random() < 0.12,
            "points": [{"at": interrupt.gen_point(rng), "kind": rng.choice(["interrupt", "memory"])} for _ in range(rng.choice([0, 0, 1, 1, 2]))]}


# -- whole state of an object, with the description of its parameters


def state(o):
    if not hasattr(o, "__iter__") or not hasattr(o, "check"):
        return snap.norm(o)
    s = snap.snap(o)
    for n in snap.params(o):
        p = getattr(o, "_" + n)
        s["_" + n] = [bool(p.required), repr(p.form), repr(p.expected_type)]
    if hasattr(o, "telescope") and o.telescope is not None:
        for n in snap.params(o.telescope):
            p = getattr(o.telescope, "_" + n)
            s["telescope._" + n] = [bool(p.required), repr(p.form), repr(p.expected_type)]
    return s


def scribble(v, seen=None, depth=0):
    """Overwrites everything mutable that is reachable from the object through its parameters."""
    seen = set() if seen is None else seen
    if id(v) in seen or depth > 6:
        return
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        if not v.flags.writeable or type(v) is not np.ndarray:
            return
        if v.dtype == object:
            for x in v.ravel():
                scribble(x, seen, depth + 1)
        elif v.dtype.kind == "b":
            np.logical_not(v, out=v)
        elif v.dtype.kind in "US":
            v[...] = "~"
        elif v.dtype.kind in "iufc":
            v[...] = 77
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, seen, depth + 1)
        for x in list(v):
            v[x] = "~"
        v["~~"] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x, seen, depth + 1)
        v.append("~")
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, seen, depth + 1)
    elif hasattr(v, "__iter__") and hasattr(v, "check"):
        for n in snap.params(v):
            p = getattr(v, "_" + n)
            p.required = not p.required
            scribble(getattr(v, n), seen, depth + 1)


# -- operations: (operands, the returning form, the in-place form or None, arguments)


class Op:
    def __init__(self, what, operands, ret, inp=None, args=None, tol=None, inp_ignore=()):
        self.what, self.operands, self.ret, self.inp, self.args, self.tol, self.inp_ignore = what, operands, ret, inp, args, tol, inp_ignore


def select_kw(rng, k, obj):
    s = snap.snap(obj)
    f = {"uvd": sel.idx_uvd, "uvc": sel.idx_uvc, "uvb": sel.idx_uvb, "uvf": sel.idx_uvf}[k]
    r = f(sel.gen(rng), s)
    return r[0] if isinstance(r, tuple) else r


def pair(rng, k, obj, grid=False):
    """Two pieces of the object along one axis."""
    sc = {"split": rng.randrange(1 << 30), "axis": rng.random(), "inter": rng.random() < 0.5, "n": 2, "grid": None, "ragged": 0, "perm": [rng.randrange(1 << 20) if rng.random() < 0.4 else 0 for _ in range(4)],
          "ids": rng.randrange(1, 1 << 20) if rng.random() < 0.5 else 0, "concat": grid}
    axis, _, rows = c17.pieces(sc, k, obj)
    if axis is None:
        return None, None, None
    return axis, rows[0][0], rows[1][0]


def varied(rng, k, b):
    """Another object with the same axes and other values, history and extra keywords."""
    b = b.copy()
    if k == "uvf":
        if b.mode == "flag":
            b.flag_array = ~b.flag_array
        else:
            b.metric_array = b.metric_array * 2 + 1
    elif b.data_array is not None:
        b.data_array = b.data_array * 2
    b.history = rng.choice([b.history, "another history of another object", ""])
    b.extra_keywords = {**b.extra_keywords, "other": 5}
    b.filename = rng.choice([None, ["other.file"]])
    if k == "uvf":
        b.label = rng.choice([b.label, "lab"])
    return b


def gains(rng, uvd):
    from pyuvdata import UVCal

    c = UVCal.initialize_from_uvdata(uvd, gain_convention=rng.choice(["multiply", "divide"]), cal_style="redundant", metadata_only=False)
    r = np.random.default_rng(rng.randrange(1 << 30))
    c.gain_array = (r.integers(1, 5, c.gain_array.shape) + 1j * r.integers(-4, 5, c.gain_array.shape)).astype(complex)
    c.flag_array = r.random(c.flag_array.shape) < 0.2
    c.gain_scale = rng.choice([None, "Jy"])
    if rng.random() < 0.3:
        fm = sel.forms(c)
        n = c.Nants_data
        if n > 1:
            c = c17.take(c, fm, "Nants_data", rng.sample(range(n), rng.randint(1, n)))
    return c


def build(sc, rng):  # noqa: C901
    import pickle

    from pyuvdata import UVCal, UVFlag, utils
    from pyuvdata.uvflag.uvflag import flags2waterfall

    k, op = sc["kind"], sc["op"]
    kk = {"x": "uvc" if op in ("flagofcal", "toant") else "uvd"}.get(k, k)
    a = c17.MAKE[kk][1](sc["cfg"])
    if op == "select":
        kw = select_kw(rng, k, a)
        return Op(f"select({sorted(kw)})", [a], lambda x: x.select(inplace=False, **kw), lambda x: x.select(inplace=True, **kw), kw)
    if op in ("copy", "copymeta"):
        return Op("copy", [a], lambda x: x.copy(**({"metadata_only": True} if op == "copymeta" else {})))
    if op == "pickle":
        return Op("pickle", [a], lambda x: pickle.loads(pickle.dumps(x)))
    if op == "eq":
        b = a.copy() if rng.random() < 0.5 else varied(rng, k, a) if k in ("uvd", "uvf") else a.copy()
        if k == "uvf":
            kw = {"check_history": rng.random() < 0.5}
            return Op("==", [a, b], lambda x, y: x.__eq__(y, **kw))
        return Op("==", [a, b], lambda x, y: [bool(x == y), bool(x != y)])
    if op == "pure":
        fns = {"uvd": [lambda x: x.check(check_autos=False), lambda x: x.get_antpairpols(), lambda x: x.get_ENU_antpos(center=True, pick_data_ants=True), lambda x: x.parse_ants("cross"),
                       lambda x: x.get_feedpols(), lambda x: x.get_redundancies(), lambda x: x.get_enu_data_ants(), lambda x: x.get_baseline_nums()],
               "uvc": [lambda x: x.check(), lambda x: x.get_time_array(), lambda x: x.get_lst_array()],
               "uvf": [lambda x: x.check(), lambda x: x.get_antpairs() if x.type == "baseline" else None, lambda x: x.get_pols(), lambda x: x.get_ants() if x.type != "waterfall" else None]}[k]
        i = rng.randrange(len(fns))
        return Op(f"read-only call {i}", [a], fns[i])
    if op == "names":
        xo = rng.choice([None, "east", "north"])

        def names(x):
            if k == "uvc":
                j = x.jones_array
                n = utils.jnum2str(j, x_orientation=xo)
                return [n, utils.jnum2str(list(j), x_orientation=xo), utils.jstr2num(n, x_orientation=xo), utils.parse_jpolstr(n[0], x_orientation=xo)]
            p = x.polarization_array
            n = utils.polnum2str(p, x_orientation=xo)
            return [n, utils.polnum2str([int(v) for v in p], x_orientation=xo), utils.polstr2num(n, x_orientation=xo), x.get_pols() if hasattr(x, "get_pols") else None, [utils.conj_pol(v) for v in n],
                    utils.pol.reorder_conj_pols(list(p)) if len(set(p) & {-7, -8}) != 1 and len(set(p) & {-3, -4}) != 1 else None]

        return Op("polarization names", [a], names)
    if op == "redun":
        kw = {"use_antpos": rng.random() < 0.5, "tol": rng.choice([0.5, 1.0, 5.0])}
        if not kw["use_antpos"]:
            kw["include_conjugates"] = rng.random() < 0.5
        return Op("get_redundancies", [a], lambda x: x.get_redundancies(**kw))
    if op == "compress":
        kw = {"method": rng.choice(["select", "average"]), "tol": rng.choice([1.0, 20.0]), "keep_all_metadata": rng.random() < 0.5}
        return Op(f"compress_by_redundancy({kw})", [a], lambda x: x.compress_by_redundancy(inplace=False, **kw), lambda x: x.compress_by_redundancy(inplace=True, **kw))
    if op in ("add", "concat"):
        axis, p, q = pair(rng, k, a, op == "concat")
        if axis is None:
            return None
        if rng.random() < 0.5 and k in ("uvd", "uvc"):
            q.history, q.extra_keywords, q.filename = "another history", {**q.extra_keywords, "other": 5}, rng.choice([None, ["q"]])
        if sc["clash"]:
            q = c17.clash(rng, k, q) or q
        if op == "concat":
            ax = c17.CAT[axis]
            many = rng.random() < 0.5
            kw = {"verbose_history": rng.random() < 0.5}
            return Op(f"fast_concat along {ax}", [p, q], lambda x, y: x.fast_concat([y] if many else y, ax, inplace=False, **kw), lambda x, y: x.fast_concat([y] if many else y, ax, inplace=True, **kw))
        kw = {"verbose_history": rng.random() < 0.5}
        if k == "uvf":
            kw = {"axis": {"Nblts": "baseline" if len(set(p.time_array.tolist()) & set(q.time_array.tolist())) else "time", **c17.FCAT}[axis]}
        return Op(f"+ along {axis}", [p, q], lambda x, y: x.__add__(y, **kw), lambda x, y: x.__add__(y, inplace=True, **kw))
    if op in ("sum", "diff"):
        b = varied(rng, k, a)
        kw = {}
        if sc["clash"]:
            b.vis_units = "K str" if b.vis_units != "K str" else "Jy"
        if rng.random() < 0.3:
            b.vis_units = "K str" if b.vis_units != "K str" else "Jy"
            kw["override_params"] = ["vis_units"]
        f = "sum_vis" if op == "sum" else "diff_vis"
        return Op(f, [a, b], lambda x, y: getattr(x, f)(y, inplace=False, **kw), lambda x, y: getattr(x, f)(y, inplace=True, **kw), kw)
    if op == "or":
        b = varied(rng, k, a)
        return Op("|", [a, b], lambda x, y: x | y, lambda x, y: x.__ior__(y))
    if op == "metrics":
        b, c = varied(rng, k, a), varied(rng, k, a)
        kw = {"method": rng.choice(["quadmean", "mean"])}
        return Op("combine_metrics", [a, b, c], lambda x, *y: x.combine_metrics(list(y), inplace=False, **kw), lambda x, *y: x.combine_metrics(list(y), inplace=True, **kw))
    if op == "power":
        kw = {"calc_cross_pols": rng.random() < 0.5, "keep_basis_vector": rng.random() < 0.3}
        return Op(f"efield_to_power({kw})", [a], lambda x: x.efield_to_power(inplace=False, **kw), lambda x: x.efield_to_power(inplace=True, **kw))
    if op == "pstokes":
        return Op("efield_to_pstokes", [a], lambda x: x.efield_to_pstokes(inplace=False), lambda x: x.efield_to_pstokes(inplace=True))
    if op == "healpix":
        kw = {"nside": rng.choice([1, 2])}
        return Op("to_healpix", [a], lambda x: x.to_healpix(inplace=False, **kw), lambda x: x.to_healpix(inplace=True, **kw))
    if op == "area":
        return Op("get_beam_area", [a], lambda x: x.get_beam_area(pol=x.polarization_array[0]) if rng.random() < 2 and x.polarization_array is not None else x.get_beam_sq_area())
    if op == "interp":
        r = np.random.default_rng(rng.randrange(1 << 30))
        new = rng.random() < 0.6
        kw = {"reuse_spline": rng.random() < 0.5}
        if rng.random() < 0.6:
            kw.update(freq_array=np.array(sorted(r.uniform(a.freq_array[0], a.freq_array[-1], 2))) if a.Nfreqs > 1 else a.freq_array.copy(), freq_interp_kind=rng.choice(["linear", "nearest"]))
        if rng.random() < 0.4:
            kw.update(healpix_nside=2, healpix_inds=np.array([0, 1, 2, 5]))
        elif new:
            kw.update(az_array=np.array([0.0, 0.4, 0.8]), za_array=np.array([0.0, 0.1, 0.2]), az_za_grid=True)
        else:
            kw.update(az_array=np.array([0.0, 0.4, 0.8]), za_array=np.array([0.0, 0.1, 0.2]), return_bandpass=True, return_coupling=False)
        return Op(f"interp(new_object={new}, {sorted(kw)})", [a], lambda x: x.interp(new_object=new, **copy.deepcopy(kw)))
    # -- operations of several classes
    if op == "calibrate":
        try:
            c = gains(rng, a)
        except REFUSED:
            return None
        kw = {"prop_flags": rng.random() < 0.7, "undo": rng.random() < 0.3, "flip_gain_conj": rng.random() < 0.3, "ant_check": rng.random() < 0.4, "time_check": rng.random() < 0.7, "d_term_cal": sc["clash"]}
        if rng.random() < 0.7:
            kw.update(uvc_pol_convention=rng.choice(["sum", "avg"]), uvd_pol_convention=rng.choice(["sum", "avg"]))
        return Op(f"uvcalibrate({kw})", [a, c], lambda x, y: utils.uvcalibrate(x, y, inplace=False, **kw), lambda x, y: utils.uvcalibrate(x, y, inplace=True, **kw), kw)
    if op == "applyflag":
        f = UVFlag(a, mode="flag", waterfall=rng.random() < 0.6, copy_flags=False)
        f.flag_array = np.random.default_rng(rng.randrange(1 << 30)).random(f.flag_array.shape) < 0.4
        kw = {"unflag_first": rng.random() < 0.5, "force_pol": rng.random() < 0.5, "flag_missing": rng.random() < 0.5}
        if rng.random() < 0.3 and f.type == "baseline":
            f.select(bls=[(int(f.ant_1_array[0]), int(f.ant_2_array[0]))])
        elif rng.random() < 0.4:
            f.collapse_pol() if f.Npols > 1 else None
        if sc["clash"]:
            f.to_metric(convert_wgts=True)
        return Op(f"apply_uvflag({kw})", [a, f], lambda x, y: utils.apply_uvflag(x, y, inplace=False, **kw), lambda x, y: utils.apply_uvflag(x, y, inplace=True, **kw))
    if op in ("flagof", "flagofcal"):
        wf = rng.random() < 0.4
        kw = {"mode": rng.choice(["flag", "metric"]), "waterfall": wf, "copy_flags": rng.random() < 0.5}
        return Op(f"UVFlag({kw})", [a], lambda x: UVFlag(x, **kw))
    if op == "flaglist":
        axis, p, q = pair(rng, "uvd", a)
        if axis != "Nblts":
            return None
        wf = rng.random() < 0.3
        return Op("UVFlag([...])", [p, q], lambda x, y: UVFlag([x, y], mode="flag", waterfall=wf, copy_flags=not wf))
    if op in ("tobl", "toant"):
        f = UVFlag(a, mode=rng.choice(["flag", "metric"]), waterfall=True)
        if f.mode == "flag":
            f.flag_array = np.random.default_rng(rng.randrange(1 << 30)).random(f.flag_array.shape) < 0.4
        tgt = a if rng.random() < 0.6 else UVFlag(a, mode="flag")
        if rng.random() < 0.4:
            fm = sel.forms(tgt)
            if op == "tobl":
                tgt = c17.take(tgt, fm, "Nblts", rng.sample(range(tgt.Nblts), rng.randint(1, tgt.Nblts)))
            tgt.telescope = tgt.telescope.copy()
            t = tgt.telescope
            o = rng.sample(range(t.Nants), t.Nants)
            for n, fo in sel.forms(t).items():
                v = getattr(t, n)
                if isinstance(v, np.ndarray) and len(fo) and fo[0] == "Nants":
                    setattr(t, n, v[o])
        kw = {"force_pol": rng.random() < 0.5}
        name = "to_baseline" if op == "tobl" else "to_antenna"

        def ret(x, y):
            z = x.copy()
            getattr(z, name)(y, **kw)
            return z

        return Op(name, [f, tgt], ret, lambda x, y: getattr(x, name)(y, **kw))
    if op == "waterfallof":
        kw = {"keep_pol": rng.random() < 0.5}
        return Op("flags2waterfall", [a], lambda x: flags2waterfall(x, **kw))
    if op == "waterfall":
        f = UVFlag(a, mode="metric")
        f.metric_array = f.metric_array + np.random.default_rng(rng.randrange(1 << 30)).integers(0, 9, f.metric_array.shape)
        kw = {"method": rng.choice(["quadmean", "mean"]), "keep_pol": rng.random() < 0.5}

        def ret2(x):
            z = x.copy()
            z.to_waterfall(**kw)
            return z

        return Op("to_waterfall", [f], ret2, lambda x: x.to_waterfall(**kw))
    if op == "initcal":
        kw = {"gain_convention": "multiply", "cal_style": "redundant", "metadata_only": rng.random() < 0.4}
        if rng.random() < 0.4:
            kw.update(cal_type=rng.choice(["gain", "delay"]))
        if rng.random() < 0.3:
            kw.update(jones_array=rng.choice(["linear", [-5, -6]]))
        return Op("UVCal.initialize_from_uvdata", [a], lambda x: UVCal.initialize_from_uvdata(x, **kw), None, kw)
    raise KeyError(op)


def run(sc, ctx):
    rng = random.Random(sc["seed"])
    o, exc = ctx.attempt(lambda: build(sc, rng))
    if exc is not None and not isinstance(exc, REFUSED):
        raise exc
    if o is None:
        ctx.stats["skipped"] += 1
        return
    cls = f"{sc['kind']}:{sc['op']}"
    before = [state(x) for x in o.operands]
    args = snap.norm(o.args)
    names = ["the object", "the other object", "the third object"]

    def untouched(cl, what, with_args=True):
        for n, x, b in zip(names, o.operands, before):
            st = state(x)
            for p in LAZY:
                if b.get(p, 0) is None:
                    st[p] = None
            ctx.same(snap.diff(b, st, strict_dtype=True), f"{cl}:{cls}", f"{o.what}: {n} {what}")
        if with_args:
            ctx.same(snap.diff(args, snap.norm(o.args), strict_dtype=True), f"args:{cls}", f"{o.what}: an argument {what}")

    # (lazy values that the package computes once and keeps are no part of the parameters)
    for p in sc["points"]:
        with interrupt.Lines() as ln:
            ctx.attempt(lambda: o.ret(*[x.copy() for x in o.operands]))
        tgt = ln.pick(*p["at"])
        if tgt is None:
            break
        with interrupt.Lines(tgt, p["kind"]) as l2:
            try:
                o.ret(*o.operands)
            except (interrupt.SimInterrupt, interrupt.SimMemoryError):
                pass
            except Exception:  # noqa: BLE001
                pass
        ctx.stats["sim_steps"] += l2.n
        if l2.fired:
            ctx.stats[f"fault:{p['kind']}"] += 1
            ctx.mix(l2.where)
        untouched("operand-interrupted", f"changed although the operation was interrupted (in {l2.where})")
    r1, exc = ctx.attempt(lambda: o.ret(*o.operands))
    ctx.mix(sc["kind"], sc["op"], type(exc).__name__)
    if exc is not None:
        ctx.check(isinstance(exc, REFUSED), f"raises:{cls}", lambda: f"{o.what} raised {type(exc).__name__}: {str(exc)[:200]}")
        ctx.stats["refused"] += 1
        untouched("operand-refused", "changed although the operation was refused: " + str(exc)[:80])
        return
    untouched("operand", "changed")
    ctx.check(all(r1 is not x for x in o.operands), f"same-object:{cls}", "the operand itself is returned")
    s1 = state(r1)
    if sc["op"] != "pure" or sc["kind"] != "uvc":
        scribble(r1)
        untouched("shared", "changes with the result", False)
    r2, exc = ctx.attempt(lambda: o.ret(*o.operands))
    ctx.check(exc is None, f"repeat:{cls}", lambda: f"{o.what} again raised {exc!r}")
    s2 = state(r2)
    if sc["op"] == "initcal":
        # (holds the date)
        s1["history"] = s2["history"]
    ctx.same(snap.diff(s1, s2, strict_dtype=True), f"repeat:{cls}", f"{o.what} gives something else the second time")
    if o.inp is not None:
        cp = [x.copy() for x in o.operands]
        ctx.must(lambda: o.inp(*cp), f"inplace-raises:{cls}", o.what + " in place")
        ctx.same(snap.diff(s2, state(cp[0]), strict_dtype=True), f"inplace:{cls}", f"{o.what}: the in-place form and the returned object differ")
        for n, x, b in list(zip(names, cp, before))[1:]:
            ctx.same(snap.diff(b, state(x), strict_dtype=True), f"operand-inplace:{cls}", f"{o.what} in place: {n} changed")
        s0 = state(cp[0])
        for x in cp[1:]:
            scribble(x)
        ctx.same(snap.diff(s0, state(cp[0])), f"shared-inplace:{cls}", f"{o.what} in place: the object changes with the other one")
    if sc["op"] != "pure" or sc["kind"] != "uvc":
        for x in o.operands:
            scribble(x)
        ctx.same(snap.diff(s2, state(r2), strict_dtype=True), f"shared:{cls}", f"{o.what}: the result changes with the operands")
    ctx.stats["operations"] += 1
    ctx.mix(snap.digest(s2))
