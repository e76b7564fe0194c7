"""Selections: a random selection of an object and, independently, what it means.

`resolve` turns (seed, options) into keyword arguments of the package's
selection interface and the indices they stand for, computed here from the
parameter values alone (intersection of the criteria per axis).
"""
import random

import numpy as np

POLSTR = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}


def gen(rng, n_max=3):
    return {"s": rng.randrange(1 << 30), "n": rng.randint(1, n_max)}


def _sub(rng, items, allow_all=False):
    items = list(items)
    k = rng.randint(1, len(items)) if allow_all or len(items) == 1 else rng.randint(1, max(1, len(items) - 1))
    out = rng.sample(items, k)
    return out


def resolve(sel, s, kinds=None):
    """(kwargs, blt indices, freq indices, pol indices); None when the axis is not selected."""
    rng = random.Random(sel["s"])
    a1, a2 = s["ant_1_array"], s["ant_2_array"]
    nblts = len(a1)
    kw = {}
    blt = freq = pol = None
    all_kinds = ["antenna_nums", "antenna_names", "bls", "bls3", "blnum", "ant_str", "times", "time_range", "lsts", "lst_range", "blt_inds",
                 "phase_center_ids", "catalog_names", "frequencies", "freq_chans", "freq_chans", "polarizations", "polarizations"]
    if kinds is not None:
        all_kinds = [k for k in all_kinds if k in kinds]
    excl = {"antenna_nums": "ants", "antenna_names": "ants", "bls": "bls", "bls3": "bls", "blnum": "bls", "ant_str": "bls", "times": "t",
            "time_range": "t", "lsts": "t", "lst_range": "t", "phase_center_ids": "pc", "catalog_names": "pc", "frequencies": "f",
            "freq_chans": "f", "polarizations": "p", "blt_inds": "b"}
    used = set()

    def and_blt(mask):
        nonlocal blt
        m = np.asarray(mask, dtype=bool)
        blt = m if blt is None else blt & m

    for _ in range(sel["n"]):
        kind = rng.choice(all_kinds)
        g = excl[kind]
        if g in used or (kind == "ant_str" and used & {"ants", "bls", "p"}) or (kind == "bls3" and "p" in used):
            continue
        if "ant_str" in kw and g in ("ants", "bls", "p"):
            continue
        used.add(g)
        if kind == "bls3":
            used.add("p")
        if kind in ("antenna_nums", "antenna_names"):
            present = sorted(set(a1.tolist()) | set(a2.tolist()))
            # take at least one whole baseline so that something is left
            i = rng.randrange(nblts)
            ants = {int(a1[i]), int(a2[i])} | set(_sub(rng, present))
            and_blt(np.isin(a1, list(ants)) & np.isin(a2, list(ants)))
            ants = sorted(ants)
            rng.shuffle(ants)
            if kind == "antenna_nums":
                kw[kind] = ants
            else:
                num, nam = list(s["telescope"]["antenna_numbers"]), list(s["telescope"]["antenna_names"])
                kw[kind] = [str(nam[num.index(a)]) for a in ants]
        elif kind in ("bls", "bls3", "blnum"):
            pairs = _sub(rng, sorted({(int(x), int(y)) for x, y in zip(a1, a2)}), True)
            m = np.zeros(nblts, dtype=bool)
            out, ps = [], set()
            have = {(int(x), int(y)) for x, y in zip(a1, a2)}
            for p in pairs:
                m |= (a1 == p[0]) & (a2 == p[1])
                if kind == "bls3":
                    ip = rng.randrange(len(s["polarization_array"]))
                    ps.add(ip)
                    out.append(p + (POLSTR[int(s["polarization_array"][ip])],))
                elif rng.random() < 0.3 and (p[1], p[0]) not in have:
                    out.append((p[1], p[0]))
                else:
                    out.append(p)
            and_blt(m)
            if kind == "blnum":
                ba = s["baseline_array"]
                kw["bls"] = sorted({int(ba[i]) for i in np.nonzero(m)[0]})
            else:
                kw["bls"] = out
            if ps:
                pol = sorted(ps)
        elif kind == "ant_str":
            v = rng.choice(["auto", "cross", "all", "pair"])
            auto = a1 == a2
            if v == "auto" and not auto.any():
                v = "cross"
            if v == "cross" and auto.all():
                v = "all"
            if v == "auto":
                and_blt(auto)
            elif v == "cross":
                and_blt(~auto)
            elif v == "pair":
                i = rng.randrange(nblts)
                and_blt((a1 == a1[i]) & (a2 == a2[i]) | (a1 == a2[i]) & (a2 == a1[i]))
                v = f"{int(a1[i])}_{int(a2[i])}"
            kw["ant_str"] = v
        elif kind in ("times", "time_range"):
            ts = sorted(set(s["time_array"].tolist()))
            if kind == "times":
                t = _sub(rng, ts, True)
                kw[kind] = t
                and_blt(np.isin(s["time_array"], t))
            else:
                i = rng.randrange(len(ts))
                j = rng.randrange(i, len(ts))
                d = rng.choice([0.0, 1e-5])
                kw[kind] = [ts[i] - d, ts[j] + d]
                and_blt((s["time_array"] >= ts[i]) & (s["time_array"] <= ts[j]))
        elif kind in ("lsts", "lst_range"):
            ls = sorted(set(s["lst_array"].tolist()))
            if kind == "lsts":
                t = _sub(rng, ls, True)
                kw[kind] = t
                and_blt(np.isin(s["lst_array"], t))
            else:
                kw[kind], m = _lst_range(rng, ls, s["lst_array"])
                and_blt(m)
        elif kind == "blt_inds":
            ii = _sub(rng, range(nblts), True)
            kw[kind] = ii
            m = np.zeros(nblts, dtype=bool)
            m[ii] = True
            and_blt(m)
        elif kind in ("phase_center_ids", "catalog_names"):
            ids = sorted({int(x) for x in s["phase_center_id_array"]})
            ii = _sub(rng, ids, True)
            and_blt(np.isin(s["phase_center_id_array"], ii))
            kw[kind] = ii if kind == "phase_center_ids" else [s["phase_center_catalog"][i]["cat_name"] for i in ii]
        elif kind in ("frequencies", "freq_chans"):
            ii = _sub(rng, range(len(s["freq_array"])), True)
            freq = sorted(ii)
            kw[kind] = ii if kind == "freq_chans" else [float(s["freq_array"][i]) for i in ii]
        elif kind == "polarizations":
            ii = _sub(rng, range(len(s["polarization_array"])), True)
            pol = sorted(ii)
            pv = [int(s["polarization_array"][i]) for i in ii]
            kw[kind] = pv if rng.random() < 0.7 else [POLSTR[p] for p in pv]
    return kw, None if blt is None else np.nonzero(blt)[0], None if freq is None else np.array(freq), None if pol is None else np.array(pol)


def ix(s, blt, freq, pol):
    return np.ix_(np.arange(len(s["ant_1_array"])) if blt is None else blt,
                  np.arange(len(s["freq_array"])) if freq is None else freq,
                  np.arange(len(s["polarization_array"])) if pol is None else pol)


def idx_uvd(sel, s, kinds=None):
    kw, b, f, p = resolve(sel, s, kinds)
    return kw, {k: v for k, v in (("Nblts", b), ("Nfreqs", f), ("Npols", p)) if v is not None}


def _lst_range(rng, ls, arr):
    """A range of LSTs, perhaps through LST = 0"""
    i = rng.randrange(len(ls))
    if rng.random() < 0.3:
        j = rng.randrange(i + 1)
        if j < i:
            d = rng.choice([0.0, 1e-5])  # (exactly the values, or a little more)
            return [ls[i] - d, ls[j] + d], (arr >= ls[i]) | (arr <= ls[j])
        if ls[i] > 0.01:
            # from a value to just after zero (or to just before the value)
            e = rng.choice([1e-5, (ls[0] - 2e-5)])
            if e < ls[0]:
                return [ls[i] - 1e-5, e], arr >= ls[i]
    j = rng.randrange(i, len(ls))
    # exactly the values, or a little more
    d = rng.choice([0.0, 1e-5]) if ls[i] > 1e-5 else 0.0
    return [ls[i] - d, ls[j] + d], (arr >= ls[i]) & (arr <= ls[j])


def _in(x, a, b):
    return a <= x <= b if a <= b else x >= a or x <= b


def _times_ranges(rng, kw, s, kind):
    """Objects whose times are ranges: the ranges that hold the times asked for or overlap the range asked for."""
    tr = s["time_range"] if kind in ("times", "time_range") else s["lst_range"]
    w = [((b - a) % (2 * np.pi)) if kind in ("lsts", "lst_range") else b - a for a, b in tr.tolist()]

    def at(i, f):
        x = tr[i, 0] + f * w[i]
        return x % (2 * np.pi) if kind in ("lsts", "lst_range") else x

    if kind in ("times", "lsts"):
        ii = _sub(rng, range(len(tr)), True)
        kw[kind] = [at(i, rng.choice([0.25, 0.5, 0.75])) for i in ii]
        return np.array(sorted(ii))
    i = rng.randrange(len(tr))
    j = rng.randrange(i, len(tr)) if kind == "time_range" or rng.random() < 0.7 else rng.randrange(len(tr))
    f, g = rng.choice([-0.1, 0.25]), rng.choice([0.75, 1.1])
    if kind == "lst_range" and rng.random() < 0.2:
        f, g = 0.4, 0.6
    a, b = at(i, f), at(j, g)
    kw[kind] = [a, b]
    if kind == "time_range":
        return np.array([n for n, (p, q) in enumerate(tr.tolist()) if p <= b and q >= a])
    return np.array([n for n, (p, q) in enumerate(tr.tolist()) if _in(a, p, q) or _in(p, a, b)])


def _times(rng, kw, s, kind):
    if s.get("time_range") is not None:
        return _times_ranges(rng, kw, s, kind)
    ta, la = s["time_array"], s["lst_array"]
    arr = ta if kind in ("times", "time_range") else la
    vs = sorted(set(arr.tolist()))
    if kind in ("times", "lsts"):
        t = _sub(rng, vs, True)
        kw[kind] = t
        return np.nonzero(np.isin(arr, t))[0]
    if kind == "lst_range":
        kw[kind], m = _lst_range(rng, vs, arr)
        return np.nonzero(m)[0]
    i = rng.randrange(len(vs))
    j = rng.randrange(i, len(vs))
    d = rng.choice([0.0, 1e-5])
    kw[kind] = [vs[i] - d, vs[j] + d]
    return np.nonzero((arr >= vs[i]) & (arr <= vs[j]))[0]


def idx_uvc(sel, s, kinds=None):
    rng = random.Random(sel["s"])
    kw, ix_ = {}, {}
    wide = s["wide_band"]
    av = ["antenna_nums", "antenna_names", "spws"]
    if s["time_array"] is not None or s["time_range"] is not None:
        av += ["times", "time_range", "lsts", "lst_range"]
    if s["flex_jones_array"] is None:
        av += ["jones", "jones"]
    if not wide:
        av += ["frequencies", "freq_chans", "freq_chans"]
    if s["phase_center_id_array"] is not None:
        av += ["phase_center_ids", "catalog_names"]
    used = set()
    grp = {"antenna_nums": "a", "antenna_names": "a", "times": "t", "time_range": "t", "lsts": "t", "lst_range": "t", "jones": "j",
           "frequencies": "f", "freq_chans": "f", "spws": "f", "phase_center_ids": "p", "catalog_names": "p"}
    ts = None
    for _ in range(sel["n"]):
        kind = rng.choice(av)
        if grp[kind] in used:
            continue
        used.add(grp[kind])
        if kind in ("antenna_nums", "antenna_names"):
            ii = _sub(rng, range(len(s["ant_array"])), True)
            nums = [int(s["ant_array"][i]) for i in ii]
            if kind == "antenna_nums":
                kw[kind] = nums
            else:
                num, nam = list(s["telescope"]["antenna_numbers"]), list(s["telescope"]["antenna_names"])
                kw[kind] = [str(nam[num.index(a)]) for a in nums]
            ix_["Nants_data"] = np.array(sorted(ii))
        elif kind in ("times", "time_range", "lsts", "lst_range"):
            t = _times(rng, kw, s, kind)
            ts = t if ts is None else np.intersect1d(ts, t)
        elif kind in ("phase_center_ids", "catalog_names"):
            ids = _sub(rng, sorted({int(x) for x in s["phase_center_id_array"]}), True)
            kw[kind] = ids if kind == "phase_center_ids" else [s["phase_center_catalog"][i]["cat_name"] for i in ids]
            t = np.nonzero(np.isin(s["phase_center_id_array"], ids))[0]
            ts = t if ts is None else np.intersect1d(ts, t)
        elif kind == "jones":
            ii = _sub(rng, range(len(s["jones_array"])), True)
            kw[kind] = [int(s["jones_array"][i]) for i in ii]
            ix_["Njones"] = np.array(sorted(ii))
        elif kind in ("frequencies", "freq_chans"):
            ii = _sub(rng, range(len(s["freq_array"])), True)
            kw[kind] = ii if kind == "freq_chans" else [float(s["freq_array"][i]) for i in ii]
            ix_["Nfreqs"] = np.array(sorted(ii))
        elif kind == "spws":
            if len(s["spw_array"]) == 1:
                continue
            ii = _sub(rng, range(len(s["spw_array"])), True)
            kw[kind] = [int(s["spw_array"][i]) for i in ii]
            if wide:
                ix_["Nspws"] = np.array(sorted(ii))
            else:
                ix_["Nfreqs"] = np.nonzero(np.isin(s["flex_spw_id_array"], kw[kind]))[0]
    if ts is not None:
        ix_["Ntimes"] = ts
    return kw, ix_


def idx_uvb(sel, s, kinds=None):
    rng = random.Random(sel["s"])
    kw, ix_ = {}, {}
    hp = s["pixel_coordinate_system"] == "healpix"
    av = ["frequencies", "freq_chans", "freq_chans"] + (["pixels", "pixels"] if hp else ["axis1_inds", "axis2_inds"])
    av += ["polarizations"] * 2 if s["beam_type"] == "power" else ["feeds"] * 2
    for _ in range(sel["n"]):
        kind = rng.choice(av)
        ax = {"frequencies": "Nfreqs", "freq_chans": "Nfreqs", "pixels": "Npixels", "axis1_inds": "Naxes1", "axis2_inds": "Naxes2",
              "polarizations": "Npols", "feeds": "Nfeeds"}[kind]
        if ax in ix_:
            continue
        n = len(s[{"Nfreqs": "freq_array", "Npixels": "pixel_array", "Naxes1": "axis1_array", "Naxes2": "axis2_array", "Npols": "polarization_array",
                   "Nfeeds": "feed_array"}[ax]])
        ii = _sub(rng, range(n), True)
        ix_[ax] = np.array(sorted(ii))
        kw[kind] = (ii if kind.endswith(("inds", "chans")) else [float(s["freq_array"][i]) for i in ii] if kind == "frequencies" else
                    [int(s["pixel_array"][i]) for i in ii] if kind == "pixels" else [str(s["feed_array"][i]) for i in ii] if kind == "feeds" else
                    [int(s["polarization_array"][i]) for i in ii])
    return kw, ix_


def idx_uvf(sel, s, kinds=None):
    rng = random.Random(sel["s"])
    if s["type"] == "baseline":
        ks = ["antenna_nums", "bls", "ant_str", "times", "blt_inds", "frequencies", "freq_chans", "polarizations"]
        return idx_uvd(sel, {**s, "polarization_array": s["polarization_array"]}, ks)
    kw, ix_ = {}, {}
    av = ["times", "times", "frequencies", "freq_chans", "polarizations"] + (["antenna_nums", "ant_inds"] if s["type"] == "antenna" else [])
    for _ in range(sel["n"]):
        kind = rng.choice(av)
        ax = {"times": "Ntimes", "frequencies": "Nfreqs", "freq_chans": "Nfreqs", "polarizations": "Npols", "antenna_nums": "Nants_data", "ant_inds": "Nants_data"}[kind]
        if ax in ix_:
            continue
        src = {"Ntimes": "time_array", "Nfreqs": "freq_array", "Npols": "polarization_array", "Nants_data": "ant_array"}[ax]
        ii = _sub(rng, range(len(s[src])), True)
        # antennas come in the order asked for
        ix_[ax] = np.array(ii if ax == "Nants_data" else sorted(ii))
        kw[kind] = ii if kind in ("freq_chans", "ant_inds") else [s[src][i].item() for i in ii]
    return kw, ix_


def forms(obj):
    """parameter -> its axes, as declared by the object."""
    out = {}
    for p in obj:
        n = p[1:] if p.startswith("_") else p
        f = getattr(getattr(obj, "_" + n, None), "form", None)
        if isinstance(f, tuple):
            out[n] = f
    return out


def model(s, fm, ix_):
    """What the selection leaves: parameter -> value, for all parameters that lie on a selected axis, and the lengths."""
    ix_ = dict(ix_)
    if "Nfreqs" in ix_ and s.get("flex_spw_id_array") is not None and "Nspws" not in ix_:
        left = set(s["flex_spw_id_array"][ix_["Nfreqs"]].tolist())
        ix_["Nspws"] = np.array([i for i, w in enumerate(s["spw_array"].tolist()) if w in left])
    out = {}
    for n, f in fm.items():
        v = s.get(n)
        if not isinstance(v, np.ndarray) or v.ndim != len(f):
            continue
        hit = False
        for ax, name in enumerate(f):
            if name in ix_ and isinstance(name, str):
                v = np.take(v, ix_[name], axis=ax)
                hit = True
        if hit:
            out[n] = v
    for name, i in ix_.items():
        out[name] = len(i)
    return out
