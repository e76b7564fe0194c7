"""C14: after any history of reorderings and edits every value is under its labels, and the accessors return it."""
import copy
import pickle
import random

import numpy as np

from .. import fmts, interrupt, merge, objs, sel, snap

RUNS = {"quick": 3000, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata"]
STUB = ["interrupts and failed allocations (raised at line events of the package)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5")}
CONJ = {-3: -4, -4: -3, -7: -8, -8: -7}


def gen(rng, i, tier):
    k = "uvb" if i % 9 == 4 else "uvc" if i % 3 == 2 else "uvd"
    cfg = objs.gen_uvd(rng) if k == "uvd" else objs.gen_uvc(rng) if k == "uvc" else gen_beam(rng)
    if k == "uvd":
        cfg["nbls"], cfg["ntimes"] = max(cfg["nbls"], rng.choice([1, 2, 3])), max(cfg["ntimes"], rng.choice([1, 2, 3]))
    elif k == "uvc":
        cfg["ntimes"] = max(cfg["ntimes"], rng.choice([1, 2, 3, 4]))
        if rng.random() < 0.4:
            cfg.update(style="sky", refarr=True)
        cfg["pcat"], cfg["scan"], cfg["vint"] = [cfg[n] or rng.random() < 0.3 for n in ("pcat", "scan", "vint")]
    steps = []
    ops = {"uvd": UVD_OPS, "uvc": UVC_OPS, "uvb": UVB_OPS}[k]
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        st = {"op": "access" if r < (0.6 if k == "uvb" else 0.4) else rng.choice(ops), "seed": rng.randrange(1 << 30)}
        if rng.random() < 0.12:
            st.update(at=interrupt.gen_point(rng), kind=rng.choice(["interrupt", "memory"]))
        steps.append(st)
    return {"kind": k, "cfg": cfg, "steps": steps + [{"op": "access", "seed": rng.randrange(1 << 30)}]}


UVD_OPS = ["blts", "blts", "blts", "pols", "freqs", "freqs", "conj", "conj", "select", "xor", "set", "set", "copy", "pickle", "bad", "rename", "flexpol", "scale", "assign", "merge"]
UVB_OPS = ["scale", "set", "set", "peak", "select", "power", "axis", "copy", "pickle", "bad", "xor"]
UVC_OPS = ["ants", "times", "jones", "freqs", "freqs", "select", "copy", "pickle", "bad", "flexjones", "xor"]


def gen_beam(rng):
    cfg = objs.gen_uvb(rng)
    cfg.update(basis="unit", n1=rng.choice([5, 8, 8]), n2=rng.choice([4, 5]), nside=rng.choice([1, 2, 4]), partial=cfg["pcs"] == "az_za" and cfg["partial"])
    if rng.random() < 0.6:
        cfg["pcs"] = "az_za"
    elif cfg["pcs"] != "az_za":
        cfg["pcs"] = "healpix"
    return cfg


# -- model


def canon(k, s):
    """The snapshot with every baseline in the direction ant1 <= ant2."""
    s = dict(s)
    for n in ("baseline_array", "blt_order", "filename"):
        s.pop(n, None)
    if k != "uvd":
        return s
    flip = np.nonzero(s["ant_1_array"] > s["ant_2_array"])[0]
    if len(flip):
        pols = s["polarization_array"].tolist()
        if all(CONJ.get(p, p) in pols for p in pols):
            pi = [pols.index(CONJ.get(p, p)) for p in pols]
            for n in ("ant_1_array", "ant_2_array", "uvw_array", "data_array", "flag_array", "nsample_array"):
                if s[n] is not None:
                    s[n] = s[n].copy()
            a1 = s["ant_1_array"][flip].copy()
            s["ant_1_array"][flip] = s["ant_2_array"][flip]
            s["ant_2_array"][flip] = a1
            s["uvw_array"][flip] *= -1
            if s["data_array"] is not None:
                s["data_array"][flip] = np.conj(s["data_array"][flip][:, :, pi])
                s["flag_array"][flip] = s["flag_array"][flip][:, :, pi]
                s["nsample_array"][flip] = s["nsample_array"][flip][:, :, pi]
    return s


class View:
    """What merge.check needs of an object, with the canonical snapshot."""


def same(ctx, k, obj, before, cls, what):
    """The labelled content of obj is that of the snapshot `before`."""
    g = canon(k, snap.snap(obj))
    a, b = labelled(k, canon(k, before), obj), labelled(k, g, obj)
    bad = []
    for ax in sorted(a[0]):
        if sorted(map(repr, a[0][ax])) != sorted(map(repr, b[0].get(ax, []))):
            bad.append(f"the labels of {ax} changed")
    if not bad:
        for n in sorted(a[1]):
            x, y = a[1][n], b[1].get(n)
            if y is None:
                bad.append(f"{n} is gone")
            else:
                bad += snap.diff(x, y, path=n)
        bad += [f"{n} appeared" for n in b[1] if n not in a[1]]
    ctx.same(bad, cls, what)


def labelled(k, s, obj):
    """(labels per axis, arrays with the axes sorted by label)"""
    lb = merge.labels(k, s)
    fm = sel.forms(obj)
    if k == "uvd" and "Nspws" not in lb and isinstance(s.get("spw_array"), np.ndarray):
        lb["Nspws"] = s["spw_array"].tolist()
    if "Nfreqs" in lb and isinstance(s.get("flex_spw_id_array"), np.ndarray):
        lb["Nfreqs"] = list(zip(s["flex_spw_id_array"].tolist(), lb["Nfreqs"]))
    elif k == "uvc" and not s.get("wide_band") and isinstance(s.get("spw_array"), np.ndarray):
        lb["Nspws"] = s["spw_array"].tolist()
    order = {a: sorted(range(len(v)), key=lambda i, v=v: v[i]) for a, v in lb.items()}
    out = {}
    for n, f in fm.items():
        v = s.get(n)
        if n in ("baseline_array", "blt_order", "filename") or not isinstance(v, np.ndarray) or v.ndim != len(f):
            continue
        if not any(isinstance(a, str) and a in lb for a in f):
            continue
        for i, a in enumerate(f):
            if a in lb:
                v = np.take(v, order[a], axis=i)
        out[n] = v
    if k == "uvd":
        c = s["phase_center_catalog"]
        out["phase_center_id_array"] = np.array([c[i]["cat_name"] for i in out["phase_center_id_array"].tolist()])
    return {a: [v[i] for i in order[a]] for a, v in lb.items()}, out


# -- accessors


def want_rows(s, a1, a2):
    i1 = np.nonzero((s["ant_1_array"] == a1) & (s["ant_2_array"] == a2))[0]
    i2 = np.nonzero((s["ant_1_array"] == a2) & (s["ant_2_array"] == a1))[0] if a1 != a2 else np.array([], dtype=int)
    return i1, i2


POLNAMES = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}
EN = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}


def polname(rng, p, xor):
    """A name of the polarization as the documentation of polnum2str gives it."""
    n = POLNAMES[p]
    xo = {"e": "east", "n": "north"}.get((xor or "")[:1])
    if xo and n[0] in "xy" and rng.random() < 0.7:
        n = "".join(EN[xo][c] for c in n)
    return n


def access_uvd(ctx, obj, rng):
    s = snap.snap(obj)
    pols = s["polarization_array"].tolist()
    arrs = {"get_data": "data_array", "get_flags": "flag_array", "get_nsamples": "nsample_array", "get_times": "time_array", "get_lsts": "lst_array"}
    pairs = sorted(set(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist())))
    if sorted(set(obj.get_antpairs())) != pairs:
        ctx.fail("accessor:uvd", "get_antpairs does not list the baselines of the rows")
    ctx.check(sorted(obj.get_ants().tolist()) == sorted({a for p in pairs for a in p}), "accessor:uvd", "get_ants does not list the antennas of the rows")
    for _ in range(3):
        name = rng.choice(list(arrs))
        if obj.data_array is None and name not in ("get_times", "get_lsts"):
            continue
        arr = s[arrs[name]]
        rows = name in ("get_times", "get_lsts")
        a1, a2 = rng.choice(pairs)
        if rng.random() < 0.35:
            a1, a2 = a2, a1
        i1, i2 = want_rows(s, a1, a2)
        form = rng.choice(["pair", "pair", "pairpol", "pairpol", "polstr", "pol", "bl", "three"])
        p = rng.choice(pols)
        q = CONJ.get(p, p)
        full = all(CONJ.get(x, x) in pols for x in pols)
        pi = [pols.index(CONJ.get(x, x)) for x in pols] if full else None
        if form in ("pol", "polstr"):
            pk = p if form == "pol" else polname(rng, p, s["telescope"]["x_orientation"])
            key, w = (pk,), (arr if rows else arr[:, :, [pols.index(p)]])
        elif form in ("pairpol", "three"):
            pk = p if rng.random() < 0.5 else polname(rng, p, s["telescope"]["x_orientation"])
            key = ((a1, a2, pk),) if form == "pairpol" else (a1, a2, pk)
            parts = []
            if len(i1):
                parts.append(arr[i1] if rows else arr[i1][:, :, [pols.index(p)]])
            if len(i2) and q in pols:
                parts.append(arr[i2] if rows else np.conj(arr[i2][:, :, [pols.index(q)]]) if name == "get_data" else arr[i2][:, :, [pols.index(q)]])
            if not parts or rows and len(i2) and q not in pols:
                continue
            w = np.concatenate(parts)
        else:
            if form == "bl":
                bl = obj.antnums_to_baseline(a1, a2)
                key = (bl,)
            else:
                key = ((a1, a2),) if rng.random() < 0.5 else (a1, a2)
            parts = []
            if len(i1):
                parts.append(arr[i1])
            if len(i2) and full:
                parts.append(arr[i2] if rows else np.conj(arr[i2][:, :, pi]) if name == "get_data" else arr[i2][:, :, pi])
            if not parts:
                continue
            w = np.concatenate(parts)
        kw = {} if rows else {"squeeze": rng.choice(["none", "default", "full"]), "force_copy": rng.random() < 0.5}
        what = f"{name}{key} {kw or ''}"
        got = ctx.must(lambda: getattr(obj, name)(*key, **kw), "accessor-raises:uvd", what)
        if kw.get("squeeze") == "full":
            w = np.squeeze(w)
        elif kw.get("squeeze") == "default" and w.shape[2] == 1:
            w = w[:, :, 0]
        ctx.same(snap.diff(w, np.array(got), path=what), "accessor:uvd", "the accessor does not return what the arrays hold")
        if kw.get("force_copy") and got.size:
            g2 = got
            g2[...] = 0
    a1, a2 = rng.choice(pairs)
    i1, _ = want_rows(s, a1, a2)
    got = obj.antpair2ind(a1, a2)
    got = np.arange(obj.Nblts)[got]
    ctx.check(got.tolist() == i1.tolist(), "accessor:uvd", lambda: f"antpair2ind({a1}, {a2}) gives {got.tolist()}, the rows are {i1.tolist()}")
    n = 0
    for key, d in obj.antpairpol_iter() if obj.data_array is not None and rng.random() < 0.2 else ():
        n += 1
        w = obj.get_data(key)
        ctx.same(snap.diff(np.array(w), np.array(d)), "accessor:uvd", f"antpairpol_iter at {key} differs from get_data")
        if n > 6:
            break


def access_uvc(ctx, obj, rng):
    s = snap.snap(obj)
    ants, js = s["ant_array"].tolist(), s["jones_array"].tolist()
    for _ in range(3):
        a = rng.choice(ants)
        j = rng.choice(js)
        names = [("get_flags", "flag_array")] + ([("get_gains", "gain_array")] if obj.gain_array is not None else []) + ([("get_quality", "quality_array")] if obj.quality_array is not None else [])
        name, arr = rng.choice(names)
        if s[arr] is None:
            continue
        w = s[arr][ants.index(a)]
        sq = rng.random() < 0.5
        if rng.random() < 0.6:
            if js == [0]:
                continue
            jp = j if rng.random() < 0.5 else {-1: "jrr", -2: "jll", -5: "jxx", -6: "jyy", -3: "jrl", -4: "jlr", -7: "jxy", -8: "jyx"}[j]
            got = ctx.must(lambda: getattr(obj, name)(a, jp, squeeze_pol=sq), "accessor-raises:uvc", f"{name}({a}, {jp})")
            w = w[:, :, js.index(j)]
            what = f"{name}({a}, {jp})"
        else:
            got = ctx.must(lambda: getattr(obj, name)(a, squeeze_pol=sq), "accessor-raises:uvc", f"{name}({a})")
            if sq and w.shape[2] == 1:
                w = w[:, :, 0]
            what = f"{name}({a})"
        ctx.same(snap.diff(w, np.array(got), path=what), "accessor:uvc", "the accessor does not return what the arrays hold")
        ctx.check(obj.ant2ind(a) == ants.index(a), "accessor:uvc", "ant2ind is wrong")


def fresh(obj):
    """An object with the same parameters that nothing has been done to."""
    new = type(obj)()
    for p in obj:
        setattr(new, p, copy.deepcopy(getattr(obj, p)))
    return new


def near(x, y):
    """Differences beyond rounding."""
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True):
        return []
    return snap.diff(x, y)


def beam_query(rng, obj):
    """(name, keywords of a query of the beam)"""
    hp = obj.pixel_coordinate_system == "healpix"
    r = rng.random()
    if hp and r < 0.25:
        return rng.choice(["get_beam_area", "get_beam_sq_area"]), {"pol": rng.choice(obj.polarization_array.tolist() if obj.polarization_array is not None else ["pI"])}
    # (the directions come from a small set: queries come back to the same ones)
    az = np.array([0.0, 0.1, 0.7, 1.5, 2.0])[: rng.choice([1, 3, 5])]
    za = np.array([0.05, 0.3, 0.55, 0.2, 0.7])[: len(az)]
    kw = {"az_array": az, "za_array": za}
    if rng.random() < 0.3:
        kw = {"az_array": np.array([0.0, 0.25, 0.5]), "za_array": np.array([0.1, 0.3]), "az_za_grid": True}
        if rng.random() < 0.5:
            kw["new_object"] = True
    elif rng.random() < 0.15:
        kw = {"healpix_nside": 1, "healpix_inds": np.array([0, 1]), "new_object": rng.random() < 0.5}
    if obj.beam_type == "power" and rng.random() < 0.4:
        names = [POLNAMES[p] for p in obj.polarization_array.tolist()]
        kw["polarizations"] = rng.sample(names, rng.randint(1, len(names)))
        if kw.get("new_object"):
            del kw["new_object"]
    f = obj.freq_array
    if rng.random() < 0.15:
        kw = {"new_object": rng.random() < 0.5}
    if rng.random() < 0.4 or "az_array" not in kw and "healpix_nside" not in kw:
        kw["freq_array"] = rng.choice([f[:1], f[-1:], f[::-1], (f[:1] + f[-1:]) / 2]).copy()
        kw["freq_interp_kind"] = rng.choice(["nearest", "linear"])
    if not kw.get("new_object") and rng.random() < 0.3:
        kw["return_bandpass"] = True
    if not hp:
        kw["reuse_spline"] = rng.random() < 0.8
        kw["check_azza_domain"] = rng.random() < 0.5
        if rng.random() < 0.3:
            kw["spline_opts"] = rng.choice([{"kx": 1, "ky": 1}, {"kx": 2, "ky": 2}, {"kx": 3, "ky": 1}, {"s": 0}])
    return "interp", kw


def access_uvb(ctx, obj, rng):
    for _ in range(2):
        name, kw = beam_query(rng, obj)
        ref = {**kw, "reuse_spline": False} if "reuse_spline" in kw else kw
        what = f"{name}({sorted((n, v.tolist() if isinstance(v, np.ndarray) else v) for n, v in kw.items())})"
        w, e1 = ctx.attempt(lambda: getattr(fresh(obj), name)(**copy.deepcopy(ref)))
        g, e2 = ctx.attempt(lambda: getattr(obj, name)(**kw))
        ctx.check((type(e1), str(e1)) == (type(e2), str(e2)), "accessor:uvb", lambda: f"{what} gives {e2!r}, for a new object with the same contents {e1!r}")
        if e1 is not None:
            ctx.stats["refused"] += 1
            continue
        ctx.stats["beam_queries"] += 1
        if name == "interp":
            sliced(ctx, obj, kw, g, what)
        if kw.get("new_object"):
            w, g = snap.snap(w), snap.snap(g)
            for n in ("data_array", "bandpass_array", "coupling_matrix"):
                ctx.same(near(w.pop(n, None), g.pop(n, None)), "accessor:uvb", f"{what}: {n} differs from the answer of a new object with the same contents")
            ctx.same(snap.diff(w, g), "accessor:uvb", f"{what} differs from the answer of a new object with the same contents")
            continue
        if not isinstance(w, tuple):
            w, g = (w,), (g,)
        ctx.check(len(w) == len(g), "accessor:uvb", lambda: f"{what} gives {len(g)} arrays")
        for i, (x, y) in enumerate(zip(w, g)):
            ctx.same(near(x, y), "accessor:uvb", f"{what}: array {i} differs from the answer of a new object with the same contents")


def sliced(ctx, obj, kw, got, what):
    """What is asked for is that part of the answer for everything, point by point."""
    full = {n: v for n, v in kw.items() if n in ("az_array", "za_array", "healpix_nside", "healpix_inds", "spline_opts", "check_azza_domain")}
    if kw.get("az_za_grid"):
        full["az_array"], full["za_array"] = [x.flatten() for x in np.meshgrid(kw["az_array"], kw["za_array"])]
    fi = list(range(obj.Nfreqs))
    if "freq_array" in kw:
        f = obj.freq_array.tolist()
        if any(x not in f for x in kw["freq_array"].tolist()):
            return
        fi = [f.index(x) for x in kw["freq_array"].tolist()]
    pols = obj.polarization_array.tolist() if obj.beam_type == "power" else None
    pi = list(range(got.data_array.shape[1] if kw.get("new_object") else got[0].shape[1]))
    if "polarizations" in kw:
        num = {v: k for k, v in POLNAMES.items()}
        pi = [pols.index(num[n]) for n in kw["polarizations"]]
    w = fresh(obj).interp(**full)[0][:, pi][:, :, fi]
    g = got.data_array if kw.get("new_object") else got[0]
    ctx.same(near(w, g.reshape(w.shape) if g.size == w.size else g), "accessor:uvb", f"{what} is not that part of the answer for all frequencies and polarizations")
    if kw.get("return_bandpass"):
        ctx.same(near(obj.bandpass_array[fi], got[2]), "accessor:uvb", f"{what}: bandpass")


ACCESS = {"uvd": access_uvd, "uvc": access_uvc, "uvb": access_uvb}


def step_beam(ctx, obj, op, rng, before):
    """Edits of a beam."""
    want, what = before, op
    if op == "scale":
        obj.data_array *= 2
        want["data_array"] = before["data_array"] * 2
    elif op == "set":
        ix = tuple(rng.randrange(n) for n in obj.data_array.shape)
        v = obj.data_array[ix] / 2 + 1
        if rng.random() < 0.5:
            obj.data_array = obj.data_array.copy()
        obj.data_array[ix] = v
        want["data_array"] = before["data_array"].copy()
        want["data_array"][ix] = v
    elif op == "axis" and obj.axis1_array is not None:
        obj.axis1_array = obj.axis1_array + 0.03125
        want["axis1_array"] = before["axis1_array"] + 0.03125
    elif op == "xor":
        # (only power beams of linear feeds: the names of the others do not depend on it)
        obj.x_orientation = want["x_orientation"] = rng.choice(["east", "north"])
    elif op == "peak":
        _, exc = ctx.attempt(obj.peak_normalize)
        if exc is not None:
            ctx.check(isinstance(exc, NotImplementedError), "edit-raises:uvb", lambda: f"peak_normalize raised {exc!r}")
        else:
            d, b = before["data_array"].copy(), before["bandpass_array"].copy()
            for i in range(obj.Nfreqs):
                m = np.abs(d[:, :, i]).max()
                d[:, :, i] /= m
                b[i] *= m
            want.update(data_array=d, bandpass_array=b, data_normalization="peak")
    elif op == "select":
        ax = rng.choice(["Nfreqs", "Nfreqs", "Npols" if obj.beam_type == "power" else "Nfeeds"])
        n = getattr(obj, ax)
        keep = sorted(rng.sample(range(n), rng.randint(1, n)))
        if ax == "Nfreqs":
            fn = lambda: obj.select(freq_chans=keep)  # noqa: E731
        elif ax == "Npols":
            fn = lambda: obj.select(polarizations=before["polarization_array"][keep])  # noqa: E731
        else:
            fn = lambda: obj.select(feeds=before["feed_array"][keep])  # noqa: E731
        ctx.must(fn, "select-raises:uvb", f"select of {ax} {keep}")
        want = {**before, **sel.model(before, sel.forms(obj), {ax: keep})}
        if "data_array" in want and not np.iscomplexobj(obj.data_array):
            want["data_array"] = want["data_array"].real
        what = f"select of {ax} {keep}"
    elif op == "power":
        _, exc = ctx.attempt(lambda: obj.efield_to_power(calc_cross_pols=rng.random() < 0.5))
        if exc is not None:
            ctx.check(isinstance(exc, (ValueError, NotImplementedError)), "edit-raises:uvb", lambda: f"efield_to_power raised {exc!r}")
        else:
            e, a = before["data_array"], dict(zip(before["feed_array"].tolist(), range(9)))
            e = e.astype(complex)
            names = {"n": "x", "e": "y"} if (before["x_orientation"] or "")[:1] == "n" else {"n": "y", "e": "x"}
            for i, p in enumerate(obj.polarization_array.tolist()):
                f = [a.get(c, a.get({v: u for u, v in names.items()}.get(c))) for c in POLNAMES[p]]
                w = e[0, f[0]] * np.conj(e[0, f[1]]) + e[1, f[0]] * np.conj(e[1, f[1]])
                ctx.check(np.allclose(w, obj.data_array[0, i], rtol=1e-5), "labels:uvb", f"efield_to_power: the power of polarization {p} is not that of its feeds")
            want = None
    ctx.must(lambda: obj.check(check_auto_power=False), "invalid:uvb", f"check after {what}")
    if want is not None:
        got = snap.snap(obj)
        for x in (want, got):
            for n in ("history", "filename"):
                x.pop(n, None)
        for n in ("data_array", "bandpass_array"):
            ctx.same(near(want.pop(n), got.pop(n)), "labels:uvb", f"{what}: {n}")
        ctx.same(snap.diff(want, got), "labels:uvb", what)
    ctx.stats["beam_edits"] += 1
    return obj


# -- steps


def blocks(rng, ids):
    gs = {}
    for i, x in enumerate(ids):
        gs.setdefault(x, []).append(i)
    b = list(gs.values())
    rng.shuffle(b)
    for x in b:
        rng.shuffle(x)
    return [i for x in b for i in x]


def step_uvd(ctx, obj, op, rng):
    """Returns (function to run on the object, what the labels do)"""
    if op == "blts":
        if rng.random() < 0.3:
            ix = list(range(obj.Nblts))
            rng.shuffle(ix)
            arg = rng.choice([ix, np.array(ix)])
            kw = {}
        else:
            arg = rng.choice(["time", "baseline", "ant1", "ant2", "bda"])
            kw = {"autos_first": rng.random() < 0.3}
            if arg not in ("bda",) and rng.random() < 0.5:
                kw["minor_order"] = rng.choice({"time": ["baseline", "ant1", "ant2"], "baseline": ["time"], "ant1": ["time", "ant2", "baseline"], "ant2": ["time", "ant1", "baseline"]}[arg])
        if rng.random() < 0.3:
            kw["conj_convention"] = rng.choice(["ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0"])
        return lambda o: o.reorder_blts(arg, **kw), f"reorder_blts({arg if isinstance(arg, str) else 'index array'}, {kw})"
    if op == "pols":
        ix = list(range(obj.Npols))
        rng.shuffle(ix)
        arg = rng.choice(["AIPS", "CASA", ix])
        return lambda o: o.reorder_pols(arg), f"reorder_pols({arg})"
    if op == "freqs":
        kw = {}
        if rng.random() < 0.3:
            kw["channel_order"] = blocks(rng, obj.flex_spw_id_array.tolist())
        else:
            if rng.random() < 0.7:
                kw["channel_order"] = rng.choice(["freq", "-freq"])
            if rng.random() < 0.7 and not kw.get("channel_order") or rng.random() < 0.5:
                ix = list(range(obj.Nspws))
                rng.shuffle(ix)
                kw["spw_order"] = rng.choice(["number", "-number", "freq", "-freq", ix])
            elif rng.random() < 0.5:
                kw["select_spw"] = rng.choice(obj.spw_array.tolist())
        return lambda o: o.reorder_freqs(**kw), f"reorder_freqs({kw})"
    if op == "conj":
        if rng.random() < 0.5:
            cr = np.nonzero(obj.ant_1_array != obj.ant_2_array)[0].tolist()
            # (a baseline as a whole or single rows)
            if rng.random() < 0.5 and cr:
                arg = sorted(rng.sample(cr, rng.randint(1, len(cr))))
            elif cr:
                b = rng.choice(cr)
                arg = [i for i in cr if obj.baseline_array[i] == obj.baseline_array[b]]
            else:
                arg = "ant1<ant2"
        else:
            arg = rng.choice(["ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0"])
        kw = {"use_enu": rng.random() < 0.5}
        return lambda o: o.conjugate_bls(arg, **kw), f"conjugate_bls({arg}, {kw})"
    raise KeyError(op)


def step_uvc(ctx, obj, op, rng):
    def perm(n):
        ix = list(range(n))
        rng.shuffle(ix)
        return ix

    if op == "ants":
        arg = rng.choice(["number", "name", "-number", "-name", perm(obj.Nants_data)])
        return lambda o: o.reorder_antennas(arg), f"reorder_antennas({arg})"
    if op == "times":
        arg = rng.choice(["time", "-time", perm(obj.Ntimes)])
        return lambda o: o.reorder_times(arg), f"reorder_times({arg})"
    if op == "jones":
        # (an unpolarized axis has no name)
        arg = rng.choice(["number", "-number", perm(obj.Njones)] + (["name", "-name"] if obj.jones_array[0] != 0 else []))
        return lambda o: o.reorder_jones(arg), f"reorder_jones({arg})"
    if op == "freqs":
        kw = {}
        if obj.wide_band or obj.flex_spw_id_array is None:
            kw["spw_order"] = rng.choice(["number", "-number", perm(obj.Nspws)])
        elif rng.random() < 0.3:
            kw["channel_order"] = blocks(rng, obj.flex_spw_id_array.tolist())
        else:
            if rng.random() < 0.7:
                kw["channel_order"] = rng.choice(["freq", "-freq"])
            if rng.random() < 0.7 and not kw.get("channel_order") or rng.random() < 0.5:
                kw["spw_order"] = rng.choice(["number", "-number", "freq", "-freq", perm(obj.Nspws)])
            elif rng.random() < 0.5:
                kw["select_spw"] = rng.choice(obj.spw_array.tolist())
        return lambda o: o.reorder_freqs(**kw), f"reorder_freqs({kw})"
    raise KeyError(op)


BAD_UVD = [lambda o: o.reorder_blts("no"), lambda o: o.reorder_blts([0] * (o.Nblts + 1)), lambda o: o.reorder_blts("bda", minor_order="time"), lambda o: o.reorder_pols("no"), lambda o: o.conjugate_bls("no"),
           lambda o: o.conjugate_bls([o.Nblts]), lambda o: o.get_data(10**6, 3), lambda o: o.reorder_freqs(channel_order="no"), lambda o: o.select(antenna_nums=[10**6]),
           lambda o: o.set_data(np.zeros((1, 1, 1, 1)), o.ant_1_array[0], o.ant_2_array[0]), lambda o: o.reorder_freqs(select_spw=[10**5], channel_order="freq")]
BAD_UVB = [lambda o: o.interp(az_array=np.array([0.1]), za_array=np.array([3.0, 1.0])), lambda o: o.interp(az_array=np.array([0.1]), za_array=np.array([0.1]), interpolation_function="no"), lambda o: o.interp(az_array=np.array([0.1]), za_array=np.array([0.1]), new_object=True),
           lambda o: o.interp(az_array=np.array([0.1]), za_array=np.array([0.1]), freq_array=np.array([1.0]), reuse_spline=True), lambda o: o.select(freq_chans=[10**6]), lambda o: o.get_beam_area("no"), lambda o: o.efield_to_pstokes() if o.beam_type == "power" else o.get_beam_area("xx")]
BAD_UVC = [lambda o: o.reorder_antennas("no"), lambda o: o.reorder_antennas([0] * (o.Nants_data + 1)), lambda o: o.reorder_times("no"), lambda o: o.reorder_times([0] * (o.Ntimes + 1)), lambda o: o.reorder_jones("no"),
           lambda o: o.get_flags(10**6), lambda o: o.select(antenna_nums=[10**6]), lambda o: o.reorder_freqs(spw_order="no")]


def run(sc, ctx):
    k = sc["kind"]
    obj = {"uvd": objs.make_uvd, "uvc": objs.make_uvc, "uvb": objs.make_uvb}[k](sc["cfg"])
    chk = {"check_autos": False} if k == "uvd" else {}
    for st in sc["steps"]:
        obj = step(sc, ctx, k, obj, st, random.Random(st["seed"]), chk)
        ctx.mix(st["op"])
        if k == "uvd":
            order_attr(ctx, obj)
    ctx.mix(snap.digest(snap.snap(obj)))


def step(sc, ctx, k, obj, st, rng, chk):
    op = st["op"]
    before = snap.snap(obj)
    acc = ACCESS[k]
    if op == "access":
        if "at" in st:
            # an accessor that is interrupted leaves nothing behind
            seed = rng.random()
            with interrupt.Lines() as ln:
                acc(ctx, obj.copy(), random.Random(seed))
            with interrupt.Lines(ln.pick(*st["at"]), st["kind"]) as l2:
                try:
                    acc(ctx, obj, random.Random(seed))
                except (interrupt.SimInterrupt, interrupt.SimMemoryError):
                    pass
                except Exception as e:  # noqa: BLE001
                    if not l2.fired:
                        raise
                    del e
            ctx.stats["sim_steps"] += l2.n
            if l2.fired:
                ctx.stats[f"fault:{st['kind']}"] += 1
        acc(ctx, obj, rng)
        ctx.same(snap.diff(before, snap.snap(obj), strict_dtype=True), f"access-changed:{k}", "accessors changed the object")
        ctx.stats["accesses"] += 1
        return obj
    if op in ("blts", "pols", "freqs", "conj", "ants", "times", "jones"):
        fn, what = (step_uvd if k == "uvd" else step_uvc)(ctx, obj, op, rng)
        _, exc = ctx.attempt(lambda: fn(obj))
        if exc is not None:
            ctx.check(isinstance(exc, (ValueError, NotImplementedError)), f"reorder-raises:{k}", lambda: f"{what} raised {type(exc).__name__}: {str(exc)[:200]}")
            ctx.stats["refused"] += 1
            ctx.mix(str(exc)[:30])
        ctx.must(lambda: obj.check(**chk), f"invalid:{k}", f"check after {what}")
        same(ctx, k, obj, before, f"labels:{k}", what + (" (refused)" if exc is not None else ""))
        ctx.stats["reorders"] += 1
        if exc is None:
            ordered(ctx, k, obj, what, op)
        return obj
    if op in ("copy", "pickle"):
        new = obj.copy() if op == "copy" else pickle.loads(pickle.dumps(obj))
        ctx.same(snap.diff(before, snap.snap(new), strict_dtype=True), f"labels:{k}", f"{op} of the object")
        # the history goes on with one of the two, the other one is used up
        keep, other = (new, obj) if rng.random() < 0.5 else (obj, new)
        if k == "uvd":
            ctx.attempt(lambda: other.conjugate_bls("ant2<ant1"))
        if k == "uvb":
            other.data_array *= 3
            other.freq_array += 1
        else:
            ctx.attempt(lambda: other.reorder_blts(list(range(other.Nblts))[::-1]) if k == "uvd" else other.reorder_antennas(list(range(other.Nants_data))[::-1]))
        acc(ctx, other, rng)
        ctx.same(snap.diff(before, snap.snap(keep), strict_dtype=True), f"aliased:{k}", f"working on a {op} changed the original (or the other way round)")
        return keep
    if op == "bad":
        fn = rng.choice({"uvd": BAD_UVD, "uvc": BAD_UVC, "uvb": BAD_UVB}[k])
        _, exc = ctx.attempt(lambda: fn(obj))
        if exc is not None:
            ctx.same(snap.diff(before, snap.snap(obj), strict_dtype=True), f"refused-changed:{k}", f"a refused call ({str(exc)[:60]}) changed the object")
            ctx.stats["bad"] += 1
        return obj
    if k == "uvb":
        return step_beam(ctx, obj, op, rng, before)
    if op == "select":
        s = before
        if k == "uvd" and obj.Nblts > 2:
            keep = sorted(rng.sample(range(obj.Nblts), rng.randint(2, obj.Nblts)))
            ctx.must(lambda: obj.select(blt_inds=keep), f"select-raises:{k}", "select by index")
            want = dict(s)
            for n, f in sel.forms(obj).items():
                v = s.get(n)
                if isinstance(v, np.ndarray) and f and f[0] == "Nblts":
                    want[n] = v[keep]
            same(ctx, k, obj, want, f"labels:{k}", "select(blt_inds)")
        return obj
    if op == "xor":
        if k == "uvd" and all(p in (-5, -6, -7, -8) for p in obj.polarization_array.tolist()):
            obj.telescope.x_orientation = rng.choice(["east", "north"])
        return obj
    if op == "assign" and k == "uvd":
        # labels given anew by the user
        if rng.random() < 0.5 and obj.Npols > 1:
            obj.polarization_array = obj.polarization_array[::-1].copy() if obj.flex_spw_polarization_array is None and all(p < 0 for p in obj.polarization_array) else obj.polarization_array
        return obj
    if op == "scale" and k == "uvd":
        if obj.data_array is not None:
            obj.data_array *= 2
            before["data_array"] = before["data_array"] * 2
            same(ctx, k, obj, before, f"labels:{k}", "data_array *= 2")
        return obj
    if op == "set" and k == "uvd":
        return setter(ctx, obj, rng, before)
    if op == "rename" and k == "uvd":
        c = rng.choice(sorted(obj.phase_center_catalog))
        name = f"new{rng.randrange(100)}"
        ctx.must(lambda: obj.rename_phase_center(c, name), f"rename-raises:{k}", "rename_phase_center")
        before["phase_center_catalog"][c]["cat_name"] = name
        same(ctx, k, obj, before, f"labels:{k}", f"rename_phase_center({c}, {name})")
        return obj
    if op == "merge" and k == "uvd":
        # split a phase center and merge it again
        n = obj.Nblts
        c = rng.choice(sorted(obj.phase_center_catalog))
        rows = np.nonzero(obj.phase_center_id_array == c)[0]
        if len(rows) < 2:
            return obj
        mask = np.zeros(n, dtype=bool)
        mask[rng.sample(rows.tolist(), rng.randint(1, len(rows) - 1))] = True
        name = obj.phase_center_catalog[c]["cat_name"]
        ctx.must(lambda: obj.split_phase_center(c, new_name="splitted", select_mask=mask), f"split-raises:{k}", "split_phase_center")
        ids = {v["cat_name"]: i for i, v in obj.phase_center_catalog.items()}
        ctx.check((obj.phase_center_id_array == ids["splitted"]).tolist() == mask.tolist(), f"labels:{k}", "split_phase_center moved other rows than those asked for")
        ctx.must(lambda: obj.merge_phase_centers([c, ids["splitted"]], ignore_name=True), f"split-raises:{k}", "merge_phase_centers")
        obj_names = {v["cat_name"] for v in obj.phase_center_catalog.values()}
        ctx.check(name in obj_names or "splitted" in obj_names, f"labels:{k}", "merging phase centers lost the name")
        left = [i for i, v in obj.phase_center_catalog.items() if v["cat_name"] in (name, "splitted")]
        for i in left:
            obj.rename_phase_center(i, name) if obj.phase_center_catalog[i]["cat_name"] != name else None
        same(ctx, k, obj, before, f"labels:{k}", "splitting a phase center and merging it again")
        return obj
    if op == "flexpol" and k == "uvd":
        if obj.flex_spw_polarization_array is not None or obj.data_array is None:
            return obj
        one = obj.Nspws == 1
        ctx.must(obj.convert_to_flex_pol, f"flex-raises:{k}", "convert_to_flex_pol")
        ctx.must(lambda: obj.check(**chk), f"invalid:{k}", "check after convert_to_flex_pol")
        w = obj.spw_array.tolist()
        pol = obj.flex_spw_polarization_array.tolist()
        bp = before["polarization_array"].tolist()
        ctx.check(sorted(set(pol)) == sorted(bp), f"labels:{k}", "convert_to_flex_pol changed the polarizations")
        for i, p in zip(w, pol) if one else ():
            m = np.nonzero(obj.flex_spw_id_array == i)[0]
            o = np.argsort(obj.freq_array[m])
            o2 = np.argsort(before["freq_array"])
            ctx.same(snap.diff(before["data_array"][:, o2, bp.index(p)], obj.data_array[:, m[o], 0]), f"labels:{k}", f"convert_to_flex_pol put other data under polarization {p}")
            ctx.same(snap.diff(before["flag_array"][:, o2, bp.index(p)], obj.flag_array[:, m[o], 0]), f"labels:{k}", f"convert_to_flex_pol put other flags under polarization {p}")
        for _ in range(rng.randint(0, 2)):
            # the windows may be in any order by then
            step_uvd(ctx, obj, "freqs", rng)[0](obj)
        ctx.must(obj.remove_flex_pol, f"flex-raises:{k}", "remove_flex_pol")
        ctx.must(lambda: obj.check(**chk), f"invalid:{k}", "check after remove_flex_pol")
        # the windows may have got other numbers of their own: give them their old ones
        def wins(f, ids):
            return {tuple(sorted(f[ids == i].tolist())): i for i in np.unique(ids).tolist()}

        o, n = wins(before["freq_array"], before["flex_spw_id_array"]), wins(obj.freq_array, obj.flex_spw_id_array)
        ctx.check(sorted(o) == sorted(n), f"labels:{k}", "convert_to_flex_pol and remove_flex_pol changed the spectral windows")
        m = {n[f]: o[f] for f in n}
        obj.flex_spw_id_array = np.array([m[i] for i in obj.flex_spw_id_array.tolist()])
        obj.spw_array = np.array([m[i] for i in obj.spw_array.tolist()])
        same(ctx, k, obj, before, f"labels:{k}", "convert_to_flex_pol and remove_flex_pol")
        return obj
    return obj


def ordered(ctx, k, obj, what, op):
    """String orders: the axis is in the order asked for."""
    if op == "blts" and what.startswith("reorder_blts(time") and "'autos_first': True" not in what:
        ctx.check(bool(np.all(np.diff(obj.time_array) >= 0)), f"order:{k}", f"{what}: the times are not in order")
    if op == "blts" and what.startswith("reorder_blts(baseline") and "'autos_first': True" not in what:
        ctx.check(bool(np.all(np.diff(obj.baseline_array.astype(float)) >= 0)), f"order:{k}", f"{what}: the baselines are not in order")
    if op == "conj":
        if "(ant1<ant2" in what:
            ctx.check(bool(np.all(obj.ant_1_array <= obj.ant_2_array)), f"order:{k}", f"{what}: baselines in the other direction are left")
        if "(ant2<ant1" in what:
            ctx.check(bool(np.all(obj.ant_1_array >= obj.ant_2_array)), f"order:{k}", f"{what}: baselines in the other direction are left")


def order_attr(ctx, obj):
    """The attributes that describe the order of the rows are true."""
    if obj.blts_are_rectangular:
        n = obj.Ntimes if obj.time_axis_faster_than_bls else obj.Nbls
        t, b = obj.time_array.reshape(-1, n), obj.baseline_array.reshape(-1, n)
        ok = (t == t[:1]).all() and (b == b[:, :1]).all() if obj.time_axis_faster_than_bls else (b == b[:1]).all() and (t == t[:, :1]).all()
        ctx.check(bool(ok), "order:uvd", "blts_are_rectangular is set but the rows are not a grid of times and baselines")
    if obj.blt_order is not None:
        col = {"time": obj.time_array, "baseline": obj.baseline_array, "ant1": obj.ant_1_array, "ant2": obj.ant_2_array}
        au = obj.ant_1_array == obj.ant_2_array
        # (with autos first, the order is that of the autos and of the crosses)
        parts = [np.nonzero(au)[0], np.nonzero(~au)[0]] if au.any() and not au.all() and au[: int(au.sum())].all() else [np.arange(obj.Nblts)]
        for ix in parts:
            cols = [col[c][ix].tolist() for c in obj.blt_order if c in col]
            rows = list(zip(*cols))
            ctx.check(rows == sorted(rows), "order:uvd", lambda: f"blt_order is {obj.blt_order} but the rows are in another order")


def setter(ctx, obj, rng, before):
    if obj.data_array is None:
        return obj
    s = before
    pols = s["polarization_array"].tolist()
    pairs = sorted(set(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist())))
    a1, a2 = rng.choice(pairs)
    i1, i2 = want_rows(s, a1, a2)
    name, arr = rng.choice([("set_data", "data_array"), ("set_flags", "flag_array"), ("set_nsamples", "nsample_array")])
    if len(i2):
        return obj
    r = np.random.default_rng(rng.randrange(1 << 30))
    if rng.random() < 0.5:
        p = rng.choice(pols)
        v = s[arr][i1][:, :, pols.index(p)]
        new = ~v if arr == "flag_array" else (v * 3 + r.integers(1, 5)).astype(v.dtype)
        ctx.must(lambda: getattr(obj, name)(new[:, :, None], a1, a2, polname(rng, p, s["telescope"]["x_orientation"])), "set-raises:uvd", f"{name} of one polarization")
        before[arr][np.ix_(i1, range(s["Nfreqs"]), [pols.index(p)])] = new[:, :, None]
    else:
        v = s[arr][i1]
        new = ~v if arr == "flag_array" else (v * 3 + r.integers(1, 5)).astype(v.dtype)
        ctx.must(lambda: getattr(obj, name)(new, a1, a2), "set-raises:uvd", f"{name}")
        before[arr][i1] = new
    same(ctx, "uvd", obj, before, "labels:uvd", f"{name}({a1}, {a2})")
    return obj
