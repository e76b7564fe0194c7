"""Model of combining pieces: what the combination of labelled arrays has to hold.

Every array of an object is seen as a map from labels (time and baseline, frequency, ...) to
values.  The combination of pieces is the union of these maps; places that no piece fills are
flagged.
"""
import numpy as np

from . import sel, snap

SKIP = {"phase_center_id_array", "spw_array", "antenna_numbers"}


def kind(obj):
    return {"UVData": "uvd", "UVCal": "uvc", "UVBeam": "uvb", "UVFlag": "uvf"}[type(obj).__name__]


def labels(k, s):
    """axis -> list of labels"""
    out = {}

    def put(ax, name):
        if isinstance(s.get(name), np.ndarray) and s[name].ndim == 1:
            out[ax] = [x.item() if hasattr(x, "item") else x for x in s[name]]

    if k == "uvd" or k == "uvf" and s["type"] == "baseline":
        out["Nblts"] = list(zip(s["time_array"].tolist(), s["ant_1_array"].tolist(), s["ant_2_array"].tolist()))
    elif k in ("uvc", "uvf") and s.get("time_array") is not None:
        put("Ntimes", "time_array")
    elif k == "uvc" and s.get("time_range") is not None:
        out["Ntimes"] = [tuple(x) for x in s["time_range"].tolist()]
    put("Nfreqs", "freq_array")
    if s.get("flex_spw_polarization_array") is not None:  # (channels of several polarizations)
        pol = dict(zip(s["spw_array"].tolist(), s["flex_spw_polarization_array"].tolist()))
        out["Nfreqs"] = [(x, pol[w]) for x, w in zip(s["freq_array"].tolist(), s["flex_spw_id_array"].tolist())]
    put("Nspws", "spw_array")
    put("Npols", "polarization_array")
    put("Njones", "jones_array")
    put("Nfeeds", "feed_array")
    put("Npixels", "pixel_array")
    put("Naxes1", "axis1_array")
    put("Naxes2", "axis2_array")
    if k in ("uvc", "uvf"):
        put("Nants_data", "ant_array")
    if k != "uvc" or not s.get("wide_band"):
        out.pop("Nspws", None)
    if k == "uvb" and s["pixel_coordinate_system"] == "healpix":
        out.pop("Naxes1", None), out.pop("Naxes2", None)
    return {a: v for a, v in out.items() if v}


def check(ctx, objs, got, cls, what, order=None):
    """`got` is the combination of `objs`; with `order` (an axis) it is their concatenation along it."""
    k = kind(got)
    g, gl = snap.snap(got), labels(k, snap.snap(got))
    ps = [o if isinstance(o, dict) else snap.snap(o) for o in objs]
    pl = [labels(k, s) for s in ps]
    pos = {a: {x: i for i, x in enumerate(v)} for a, v in gl.items()}
    for a, v in gl.items():
        ctx.check(len(pos[a]) == len(v), cls, lambda a=a, v=v: f"{what}: the {a} axis holds a label twice")
        want = set().union(*[set(p.get(a, ())) for p in pl])
        ctx.check(set(v) == want, cls, lambda a=a, v=v, want=want: f"{what}: the {a} axis has {len(set(v) - want)} labels that no piece has and lacks "
                                                                  f"{len(want - set(v))} of them")
    if order is not None:
        ctx.check(gl[order] == [x for p in pl for x in p[order]], cls, lambda: f"{what}: the pieces are not in the order given along {order}")
    fm = sel.forms(got)
    bad = []
    for n, f in sorted(fm.items()):
        v = g.get(n)
        if n == "total_quality_array" and len({frozenset(p["Nants_data"]) for p in pl}) > 1:
            continue  # (dropped, with a warning, wherever antennas are added)
        if n in SKIP or not isinstance(v, np.ndarray) or v.ndim != len(f) or not any(a in gl for a in f if isinstance(a, str)):
            continue
        cover = np.zeros(v.shape, dtype=bool)
        for s, p in zip(ps, pl):
            w = s.get(n)
            if not isinstance(w, np.ndarray):
                continue
            ix = np.ix_(*[[pos[a][x] for x in p[a]] if a in gl else list(range(v.shape[i])) for i, a in enumerate(f)])
            if v[ix].shape != w.shape:
                bad.append(f"{n}: a piece has shape {w.shape}, its place {v[ix].shape}")
                continue
            bad += snap.diff(w, v[ix], path=n)
            cover[ix] = True
        if n == "flag_array" and not v[~cover].all():
            bad.append(f"{n}: {int((~v[~cover]).sum())} places that no piece fills are not flagged")
        if n in ("data_array", "nsample_array") and k == "uvd" and v[~cover].any():
            bad.append(f"{n}: places that no piece fills are not zero")
    ctx.same(bad, cls, what)
    if k == "uvd":
        name = {}
        for s in ps:
            c = s["phase_center_catalog"]
            for x, i in zip(labels(k, s)["Nblts"], s["phase_center_id_array"].tolist()):
                name[x] = c[i]["cat_name"]
        c = g["phase_center_catalog"]
        wrong = [x for x, i in zip(gl["Nblts"], g["phase_center_id_array"].tolist()) if c[i]["cat_name"] != name[x]]
        ctx.check(not wrong, cls, lambda: f"{what}: {len(wrong)} rows point at another phase center")
        spw = {}
        for s in ps:
            for x, w in zip(labels(k, s)["Nfreqs"], s["flex_spw_id_array"].tolist()):
                spw[x] = w
        same = all(spw[x] == w for x, w in zip(gl["Nfreqs"], g["flex_spw_id_array"].tolist()))
        ctx.check(same, cls, lambda: f"{what}: channels changed their spectral window")
    for a in gl:
        if a in g:
            ctx.check(g[a] == len(gl[a]), cls, lambda a=a: f"{what}: {a} is {g[a]}, the axis has {len(gl[a])} entries")
    ctx.mix(what, snap.digest({n: g[n] for n in fm if isinstance(g.get(n), np.ndarray)}))
