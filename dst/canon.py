"""Canonical form of a UVData snapshot, for formats that reorder axes.

The data of an object are a map (time, ant1, ant2, frequency, polarization) ->
(visibility, flag, nsample) plus metadata; formats are free to permute the
axes and to renumber spectral windows and phase centers.  `canon` undoes that.
"""
import numpy as np


def canon_uvd(s, blt=True, freq=True, pol=True, ants=True, conj=False):
    s = {k: v for k, v in s.items()}
    tel = dict(s["telescope"])
    nblts, nf, npol = s["Nblts"], s["Nfreqs"], s["Npols"]

    def perm(axis_len_name, order, keys):
        for k in keys:
            if isinstance(s.get(k), np.ndarray):
                s[k] = s[k][order]

    if blt:
        t = np.round((s["time_array"] - 2450000.0) * 86400.0 * 100).astype(np.int64)
        o = np.lexsort((s["ant_2_array"], s["ant_1_array"], t))
        perm("Nblts", o, ["time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "uvw_array",
                          "integration_time", "phase_center_id_array", "phase_center_app_ra", "phase_center_app_dec",
                          "phase_center_frame_pa", "scan_number_array", "data_array", "flag_array", "nsample_array"])
    if freq:
        o = np.argsort(s["freq_array"], kind="stable")
        perm("Nfreqs", o, ["freq_array", "channel_width", "flex_spw_id_array"])
        for k in ("data_array", "flag_array", "nsample_array", "eq_coeffs"):
            if isinstance(s.get(k), np.ndarray):
                s[k] = s[k][:, o]
        # renumber spws by first appearance along sorted frequency
        ids = s["flex_spw_id_array"]
        seen = {}
        for x in ids.tolist():
            seen.setdefault(x, len(seen))
        s["flex_spw_id_array"] = np.array([seen[x] for x in ids.tolist()])
        s["spw_array"] = np.arange(len(seen))
    if pol:
        o = np.argsort(np.abs(s["polarization_array"]), kind="stable")
        s["polarization_array"] = s["polarization_array"][o]
        for k in ("data_array", "flag_array", "nsample_array"):
            if isinstance(s.get(k), np.ndarray):
                s[k] = s[k][:, :, o]
    if ants:
        o = np.argsort(tel["antenna_numbers"])
        for k in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
            if isinstance(tel.get(k), np.ndarray):
                tel[k] = tel[k][o]
            elif isinstance(tel.get(k), list):
                tel[k] = [tel[k][i] for i in o]
        if isinstance(s.get("eq_coeffs"), np.ndarray):
            s["eq_coeffs"] = s["eq_coeffs"][o]
    s["telescope"] = tel
    # phase centers by name; per-blt name
    cat = s["phase_center_catalog"]
    used = set(int(x) for x in np.unique(s["phase_center_id_array"]))
    names = {k: cat[k]["cat_name"] for k in cat}
    s["phase_center_id_array"] = [names[int(x)] for x in s["phase_center_id_array"]]
    s["phase_center_catalog"] = {names[k]: cat[k] for k in cat if k in used}
    s["Nphase"] = len(used)
    return s


_POLSWAP = {-3: -4, -4: -3, -7: -8, -8: -7}


def orient(s):
    """All baselines with ant1 <= ant2 (conjugating where needed)."""
    s = dict(s)
    m = s["ant_1_array"] > s["ant_2_array"]
    if not m.any():
        return s
    a1, a2 = s["ant_1_array"].copy(), s["ant_2_array"].copy()
    a1[m], a2[m] = s["ant_2_array"][m], s["ant_1_array"][m]
    s["ant_1_array"], s["ant_2_array"] = a1, a2
    u = s["uvw_array"].copy()
    u[m] = -u[m]
    s["uvw_array"] = u
    pols = [int(x) for x in s["polarization_array"]]
    idx = []
    for k, p in enumerate(pols):
        q = _POLSWAP.get(p, p)
        idx.append(pols.index(q) if q in pols else k)
    for key in ("data_array", "flag_array", "nsample_array"):
        if isinstance(s.get(key), np.ndarray):
            d = s[key].copy()
            x = d[m][:, :, idx]
            d[m] = np.conj(x) if key == "data_array" else x
            s[key] = d
    return s


def canon_mscal(a, b):
    """CASA tables: every antenna of the telescope has rows, one quality per solution, sorted axes."""
    a, b = dict(a), dict(b)
    main = "delay_array" if a["cal_type"] == "delay" else "gain_array"
    sh = a[main].shape
    q = np.ones(sh)
    if a["quality_array"] is not None:
        q = q * a["quality_array"]
    if a["total_quality_array"] is not None:
        q = q * a["total_quality_array"][np.newaxis]
    a["quality_array"], a["total_quality_array"] = q, None
    nums = np.asarray(a["telescope"]["antenna_numbers"])
    full = {main: np.zeros, "quality_array": np.zeros, "flag_array": lambda s, d: np.ones(s, bool)}
    rows = [nums.tolist().index(x) for x in a["ant_array"].tolist()]
    for k, mk in full.items():
        new = mk((len(nums),) + sh[1:], a[k].dtype)
        new[rows] = a[k]
        a[k] = new
    a["ant_array"], a["Nants_data"] = nums, len(nums)
    if a["scan_number_array"] is None:
        a["scan_number_array"] = np.zeros(a["Ntimes"], int)
    ref = a["ref_antenna_array"]
    if ref is not None and len(set(ref.tolist())) == 1:
        a["ref_antenna_name"] = str(a["telescope"]["antenna_names"][nums.tolist().index(ref[0])])
        a["ref_antenna_array"] = None
    b["extra_keywords"] = {k: v for k, v in b["extra_keywords"].items() if k in a["extra_keywords"] or k not in ("CASA_Version", "MSName")}
    for s in (a, b):
        tel = dict(s["telescope"])
        o = np.argsort(tel["antenna_numbers"])
        for k in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
            if isinstance(tel.get(k), np.ndarray):
                tel[k] = tel[k][o]
            elif isinstance(tel.get(k), list):
                tel[k] = [tel[k][i] for i in o]
        s["telescope"] = tel
        o = np.argsort(s["ant_array"])
        s["ant_array"] = s["ant_array"][o]
        oj = np.argsort(np.abs(s["jones_array"]), kind="stable")
        s["jones_array"] = np.asarray(s["jones_array"])[oj]
        of = np.arange(s["flag_array"].shape[1])
        if s["freq_array"] is not None:
            of = np.argsort(s["freq_array"], kind="stable")
            for k in ("freq_array", "channel_width", "flex_spw_id_array"):
                s[k] = s[k][of]
            s["spw_array"] = np.sort(s["spw_array"])
        elif s["freq_range"] is not None:
            of = np.argsort(s["freq_range"][:, 0], kind="stable")
            s["freq_range"], s["spw_array"] = s["freq_range"][of], s["spw_array"][of]
        for k in full:
            if isinstance(s[k], np.ndarray):
                s[k] = s[k][o][:, of][..., oj]
        cat = s["phase_center_catalog"]
        if cat is not None:
            names = {k: cat[k]["cat_name"] for k in cat}
            s["phase_center_id_array"] = [names[int(x)] for x in s["phase_center_id_array"]]
            s["phase_center_catalog"] = {names[k]: {**cat[k], "cat_epoch": cat[k]["cat_epoch"] or 2000.0} for k in cat}
    b["history"] = a["history"] if " ".join(a["history"].split()) in " ".join((b["history"] or "").split()) else b["history"]
    return a, b
