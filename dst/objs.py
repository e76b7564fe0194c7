"""Seeded generators of pyuvdata objects.

An object is a pure function of its configuration (a JSON dict).  Every
configuration key has a default which is the simplest choice, so that the
minimiser can replace keys by their defaults one at a time.
"""
import warnings

import numpy as np


def _loc():
    from astropy.coordinates import EarthLocation

    return EarthLocation.from_geodetic(21.42830, -30.72152, 1051.69)


# --------------------------------------------------------------------- telescope
TEL_DEFAULT = {"nants": 3, "antnum": "plain", "diam": False, "xor": "east", "tname": "SIMTEL", "names": "plain", "perm": False}


def gen_tel(rng):
    return {
        "nants": rng.choice([2, 3, 3, 4, 5]),
        "antnum": rng.choice(["plain", "plain", "gap", "offset", "big"]),
        "diam": rng.random() < 0.4,
        "xor": rng.choice(["east", "north", None]),
        "tname": rng.choice(["SIMTEL", "Sim Array", "ST-1"]),
        "names": rng.choice(["plain", "plain", "alpha", "long"]),
        "perm": rng.random() < 0.25,
    }


def ant_numbers(cfg):
    n = cfg["nants"]
    if cfg["antnum"] == "plain":
        a = np.arange(n)
    elif cfg["antnum"] == "gap":
        a = np.array([0, 3, 4, 11, 12, 17])[:n]
    elif cfg["antnum"] == "offset":
        a = np.arange(n) + 7
    else:
        a = np.array([1, 90, 140, 201, 254])[:n]
    if cfg.get("perm"):
        a = a[::-1].copy()
    return a


def make_tel(cfg, need_instrument=True):
    from pyuvdata import Telescope

    cfg = {**TEL_DEFAULT, **cfg}
    nums = ant_numbers(cfg)
    r = np.random.default_rng(1000 + len(nums))
    pos = np.round(r.uniform(-40, 40, size=(len(nums), 3)) * 8) / 8
    pos[:, 2] = np.round(pos[:, 2] / 8 * 4) / 4
    if cfg["names"] == "plain":
        names = [f"ant{n:03d}" for n in nums]
    elif cfg["names"] == "alpha":
        names = ["E%d" % i if i % 2 else "W%d" % (i * 10) for i in range(len(nums))]
    else:
        names = [f"HH{n}" for n in nums]
    return Telescope.new(
        name=cfg["tname"],
        location=_loc(),
        antenna_positions=pos,
        antenna_names=names,
        antenna_numbers=nums,
        instrument="SIMINST" if cfg["tname"] == "SIMTEL" else "sim inst",
        x_orientation=cfg["xor"],
        antenna_diameters={False: None, True: np.arange(len(nums)) % 3 + 12.5, "same": np.full(len(nums), 14.5)}[cfg["diam"]],
    )


def start(cfg, step):
    """The first time; with "twrap", LST = 0 is between the first two times (a third of a step after the first)."""
    t = 2458765.25
    if cfg.get("twrap") and cfg.get("phase") != "ephem":
        lst = (280.46061837 + 360.98564736629 * (t - 2451545.0) + _loc().lon.deg) % 360.0
        t += (360.0 - lst) / 360.98564736629 - step / 3 / 86400.0
    return t


# ------------------------------------------------------------------------ UVData
UVD_DEFAULT = {
    **TEL_DEFAULT,
    "dseed": 1, "ntimes": 2, "nfreqs": 2, "pols": [-5], "nbls": 2, "rect": True,
    "order": "time", "nspw": 1, "dtype": "c16", "phase": "unproj", "scan": False,
    "eq": False, "ekw": [], "units": "Jy", "aips": False, "chw": "const",
    "frev": False, "flags": "rand", "nsamp": "rand", "hist": "plain", "polconv": None,
    "inttime": "const", "autos": False, "conj": False, "bltorder": False, "files": False,
    "uvpref": False, "dense": True, "unused": False, "nsdtype": "f8", "idata": False, "twrap": False, "full": False,
}
EKW = {
    "intk": 3, "fltk": 2.5, "strk": "hello", "boolk": True, "negk": -17,
    "cplxk": 1.5 - 2.25j, "longs": "x" * 40, "nonek": None, "bigk": 1234567.875, "falsek": False,
}
# (the same names with values of other types)
EKALT = {**EKW, "intk": 2.5, "fltk": 7, "strk": 1.25, "negk": "text", "longs": 12}


def ekw(cfg):
    return {k: (EKALT if cfg.get("ekalt") else EKW)[k] for k in cfg["ekw"]}


def gen_uvd(rng, fmt="uvh5"):
    c = gen_tel(rng)
    pols = rng.choice([[-5], [-5, -6], [-5, -6, -7, -8], [-1], [-1, -2, -3, -4], [1], [1, 2, 3, 4], [-6, -5], [-8, -7, -6, -5]])
    phases = ["sid", "sid2", "multi", "ephem", "drift", "sidpm", "fk5", "galactic", "sid_name", "cat3"]
    if fmt in ("uvh5",):
        phases += ["unproj", "unproj", "mixunproj"]
    if fmt == "miriad":
        phases = ["sid", "sid2", "multi", "cat3", "fk5", "galactic", "sid_name", "ephem", "unproj", "unproj", "unproj"]
    if fmt in ("uvfits", "miriad", "ms"):
        ek = ["intk", "fltk", "strk", "boolk", "negk", "bigk", "falsek", "longs"]
    else:
        ek = list(EKW)
    if fmt == "uvfits":
        ek = ek + ["cplxk"]
    if fmt == "uvfits":
        phases = ["sid", "sid2", "multi", "fk5", "galactic", "sid_name", "cat3s"]
    if fmt == "ms":
        phases = ["sid", "sid2", "multi", "fk5", "sid_name", "sidpm", "cat3s", "ephem"]
    c.update({
        "dseed": rng.randrange(1 << 30),
        "ntimes": rng.choice([1, 2, 2, 3, 4]),
        "nfreqs": rng.choice([1, 2, 3, 4, 6]),
        "pols": pols,
        "nbls": rng.choice([1, 2, 3, 4, 6]),
        "rect": rng.random() < 0.7,
        "order": rng.choice(["time", "time", "bl", "shuffle"]),
        "nspw": rng.choice([1, 1, 1, 2, 3]),
        "dtype": rng.choice(["c16", "c16", "c8"]),
        "phase": rng.choice(phases),
        "scan": rng.random() < 0.25,
        "eq": rng.random() < 0.25,
        "ekw": sorted(rng.sample(ek, rng.choice([0, 0, 1, 2, 4]))),
        "units": rng.choice(["Jy", "uncalib", "K str"]),
        "aips": rng.random() < 0.3,
        "chw": rng.choice(["const", "const", "var"]),
        "frev": rng.random() < 0.15,
        "flags": rng.choice(["rand", "rand", "none", "all"]),
        "nsamp": rng.choice(["rand", "rand", "one", "zero"]),
        "hist": rng.choice(["plain", "long", "multi", "version"]),
        "polconv": rng.choice([None, None, "sum", "avg"]),
        "inttime": rng.choice(["const", "const", "var"]),
        "autos": rng.random() < 0.5,
        "conj": rng.random() < 0.3,
        "bltorder": rng.random() < 0.4,
        "files": rng.random() < 0.4,
        "uvpref": rng.random() < 0.15,
        "unused": rng.random() < 0.2,
        "nsdtype": rng.choice(["f8", "f8", "f4"]),
        "twrap": rng.random() < 0.2,
        "full": fmt == "uvh5" and rng.random() < 0.4,
    })
    if fmt in ("uvfits", "ms") and c["nspw"] > 1:
        c["nfreqs"] = c["nspw"] * rng.choice([1, 2]) if fmt == "uvfits" else c["nspw"] * 2
    if fmt == "miriad" and c["diam"]:
        c["diam"] = "same"
    if fmt == "ms" and c["pols"][0] > 0:
        c["pols"] = [-5, -6, -7, -8]
    return c


def _quant(r, shape, lim=500, full=False):
    """Random values exactly representable in single precision (or, with full, only in double precision)."""
    u = r.uniform(-lim, lim, size=shape)
    return u if full else np.round(u * 16) / 16


def make_uvd(cfg, meta_only=False):
    from pyuvdata import UVData

    cfg = {**UVD_DEFAULT, **cfg}
    r = np.random.default_rng(cfg["dseed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tel = make_tel(cfg)
        nums = sorted(int(x) for x in tel.antenna_numbers)
        if cfg["unused"] and len(nums) > 2:
            nums = nums[:-1]
        pairs = [(a, b) for i, a in enumerate(nums) for b in nums[i + (0 if cfg["autos"] else 1):]]
        pairs = [pairs[i] for i in sorted(r.permutation(len(pairs))[: cfg["nbls"]])]
        if cfg["conj"]:
            pairs = [(b, a) if i % 2 else (a, b) for i, (a, b) in enumerate(pairs)]
        times = start(cfg, 16.0) + np.arange(cfg["ntimes"]) * 16.0 / 86400.0
        nt, nb = len(times), len(pairs)
        ti = np.repeat(np.arange(nt), nb)
        bi = np.tile(np.arange(nb), nt)
        if not cfg["rect"] and nt * nb > 2:
            keep = r.random(nt * nb) < 0.7
            keep[0] = True
            keep[-1] = True
            ti, bi = ti[keep], bi[keep]
        if cfg["order"] == "bl":
            o = np.lexsort((ti, bi))
            ti, bi = ti[o], bi[o]
        elif cfg["order"] == "shuffle":
            o = r.permutation(len(ti))
            ti, bi = ti[o], bi[o]
        nblts = len(ti)
        antpairs = np.array([pairs[b] for b in bi])
        nf = cfg["nfreqs"]
        nspw = min(cfg["nspw"], nf)
        chw = np.full(nf, 125000.0)
        freqs = 1.0e8 + np.arange(nf) * 125000.0
        spwid = np.zeros(nf, dtype=int)
        if nspw > 1:
            spwid = np.sort(np.arange(nf) % nspw)
            freqs = 1.0e8 + spwid * 1.0e7 + np.arange(nf) * 125000.0
            if cfg["chw"] == "var":
                chw = 125000.0 * (1 + spwid)
                freqs = 1.0e8 + spwid * 1.0e7 + np.arange(nf) * chw
        if cfg["frev"]:
            freqs = freqs[::-1].copy()
            spwid = spwid[::-1].copy()
            chw = chw[::-1].copy()
        inttime = np.full(nblts, 16.0)
        if cfg["inttime"] == "var":
            inttime = 8.0 * (1 + bi.astype(float) % 3)
        uvd = UVData.new(
            freq_array=freqs,
            polarization_array=np.array(cfg["pols"]),
            antpairs=antpairs,
            telescope=tel,
            times=times[ti],
            do_blt_outer=False,
            integration_time=inttime,
            channel_width=chw,
            flex_spw_id_array=spwid,
            vis_units=cfg["units"],
            empty=not meta_only,
        )
        uvd.history = {
            "plain": "sim history", "long": "line of history " * 30,
            "multi": "first line\nsecond line: with colon\nthird",
            "version": "made by sim" + uvd.pyuvdata_version_str,
        }[cfg["hist"]]
        if cfg["aips"]:
            uvd.dut1 = 0.25
            uvd.gst0 = 123.5
            uvd.rdate = "2019-10-08"
            uvd.earth_omega = 360.985
            uvd.timesys = "UTC"
        if cfg["polconv"] and cfg["units"] != "uncalib":
            uvd.pol_convention = cfg["polconv"]
        if cfg["eq"]:
            uvd.eq_coeffs = np.round(r.uniform(0.5, 4, size=(len(tel.antenna_numbers), nf)) * 64) / 64
            uvd.eq_coeffs_convention = "divide" if cfg["dseed"] % 2 else "multiply"
        if cfg["scan"]:
            uvd.scan_number_array = (ti + 1).astype(int)
        if cfg["uvpref"]:
            uvd.uvplane_reference_time = 5
        uvd.extra_keywords = ekw(cfg)
        if cfg["files"]:
            uvd.filename = ["a_in.uvh5", "b_in.uvh5"]
            uvd._filename.form = (2,)
        _phase(uvd, cfg, ti)
        if not meta_only:
            d = _quant(r, uvd.data_array.shape, full=cfg["full"]) + 1j * _quant(r, uvd.data_array.shape, full=cfg["full"])
            if cfg["idata"]:
                m = 1 << 20 if cfg["full"] and cfg["dtype"] == "c16" else 1
                d = np.rint(d.real * m) + 1j * np.rint(d.imag * m)
            auto = uvd.ant_1_array == uvd.ant_2_array
            realp = np.isin(uvd.polarization_array, [-1, -2, -5, -6, 1, 2, 3, 4])
            for k in np.nonzero(auto)[0]:
                d[k][:, realp] = np.abs(d[k][:, realp].real)
            uvd.data_array = d.astype(np.complex64 if cfg["dtype"] == "c8" else np.complex128)
            sh = d.shape
            if cfg["flags"] == "rand":
                uvd.flag_array = r.random(sh) < 0.3
            elif cfg["flags"] == "all":
                uvd.flag_array = np.ones(sh, dtype=bool)
            ns = np.ones(sh)
            if cfg["nsamp"] == "rand":
                ns = np.round(r.uniform(0.25, 4, size=sh) * 8) / 8
            elif cfg["nsamp"] == "zero":
                ns = np.where(r.random(sh) < 0.3, 0.0, np.round(r.uniform(0.25, 4, size=sh) * 8) / 8)
            uvd.nsample_array = ns.astype(np.float32 if cfg["nsdtype"] == "f4" else np.float64)
        if cfg["bltorder"]:
            uvd.reorder_blts(order="time", minor_order="baseline")
        uvd.check(check_autos=False) if not meta_only else uvd.check()
    return uvd


def _phase(uvd, cfg, ti):
    p = cfg["phase"]
    if p == "unproj":
        return
    kw = {"lon": 0.35, "lat": -0.52, "cat_name": "srcA", "phase_frame": "icrs"}
    if p == "sid":
        uvd.phase(**kw)
    elif p == "sid_name":
        uvd.phase(**{**kw, "cat_name": "PKS 0023-26"})
    elif p == "sidpm":
        uvd.phase(**kw, cat_type="sidereal", pm_ra=12.5, pm_dec=-3.25, epoch="J2000")
    elif p == "fk5":
        uvd.phase(**{**kw, "phase_frame": "fk5"}, epoch="J2000")
    elif p == "galactic":
        uvd.phase(**{**kw, "phase_frame": "galactic"})
    elif p == "drift":
        uvd.phase(lon=0.1, lat=1.4, cat_type="driftscan", cat_name="dscan", phase_frame="altaz")
    elif p == "ephem":
        t = 2458765.25 + np.array([-0.01, 0.0, 0.01])
        uvd.phase(lon=np.array([0.35, 0.351, 0.352]), lat=np.array([-0.52, -0.521, -0.522]), ephem_times=t,
                  cat_type="ephem", cat_name="mover", phase_frame="icrs", dist=np.array([1.0, 1.125, 1.25]) * 1e-4,
                  vrad=np.array([0.0, 1.0, 2.0]))
    elif p in ("sid2", "multi", "mixunproj", "cat3", "cat3s"):
        m = ti % 2 == 0
        if p != "mixunproj":
            uvd.phase(**kw)
        if p in ("multi", "mixunproj", "cat3", "cat3s") and m.any():
            uvd.phase(lon=0.41, lat=-0.45, cat_name="srcB", phase_frame="icrs", select_mask=m)
        if p in ("cat3", "cat3s"):
            m3 = ti >= 2
            fr = {"phase_frame": "fk5", "epoch": "J2000"} if p == "cat3" else {"phase_frame": "icrs"}
            if m3.any():
                uvd.phase(lon=0.31, lat=-0.55, cat_name="srcC", select_mask=m3, **fr)


# ------------------------------------------------------------------------- UVCal
UVC_DEFAULT = {
    **TEL_DEFAULT,
    "dseed": 1, "ctype": "gain", "style": "redundant", "ntimes": 2, "nfreqs": 2, "jones": [-5], "nspw": 1,
    "trange": False, "quality": False, "totq": False, "flags": "rand", "gconv": "divide", "gscale": None,
    "dtype": "c16", "subset": False, "ekw": [], "hist": "plain", "misc": False, "pcat": False, "scan": False,
    "refarr": False, "frev": False, "flexjones": False, "chw": "const", "qdtype": "f8", "polconv": None,
    "tgap": False, "vint": False, "twrap": False, "full": False,
}


def gen_uvc(rng, fmt="calh5"):
    c = gen_tel(rng)
    c["xor"] = rng.choice(["east", "north"])
    h5 = fmt in ("calh5", "mscal")
    ek = ["intk", "fltk", "strk", "boolk", "negk", "bigk", "falsek", "longs"] + (["nonek"] if fmt == "calh5" else [])
    ctype = rng.choice(["gain", "gain", "delay", "wide"])
    if not h5 and ctype == "wide":
        ctype = "gain"
    c.update({
        "dseed": rng.randrange(1 << 30),
        "ctype": ctype,
        "style": rng.choice(["redundant", "sky"]),
        "ntimes": rng.choice([1, 2, 3, 4]),
        "nfreqs": rng.choice([1, 2, 3, 5]),
        "jones": rng.choice([[-5], [-5, -6], [-5, -6, -7, -8], [-1], [-1, -2], [-6, -5], [-6], [-5, -8], [-8, -7, -6, -5], [-1, -2, -3, -4]]),
        "nspw": rng.choice([1, 1, 2, 3]) if h5 else 1,
        "trange": rng.random() < 0.25,
        "quality": rng.random() < 0.5,
        "totq": rng.random() < 0.4,
        "flags": rng.choice(["rand", "rand", "none", "all"]),
        "gconv": rng.choice(["divide", "multiply"]),
        "gscale": rng.choice([None, "Jy", "K str", "uncalib"]),
        "dtype": rng.choice(["c16", "c8"]),
        "subset": rng.random() < 0.4,
        "ekw": sorted(rng.sample(ek, rng.choice([0, 0, 1, 3]))),
        "hist": rng.choice(["plain", "long", "multi", "version"]),
        "misc": rng.random() < 0.5,
        "pcat": h5 and rng.random() < 0.3,
        "scan": h5 and rng.random() < 0.3,
        "refarr": h5 and rng.random() < 0.3,
        "frev": h5 and rng.random() < 0.15,
        "flexjones": h5 and rng.random() < 0.2,
        "chw": rng.choice(["const", "const", "var"]) if h5 else rng.choice(["const", "const", "half"]),
        "qdtype": rng.choice(["f8", "f4"]),
        "polconv": rng.choice([None, None, "sum", "avg"]),
        "tgap": rng.random() < 0.2,
        "vint": h5 and rng.random() < 0.2,
        "twrap": rng.random() < 0.2,
        "full": rng.random() < 0.4,
    })
    if not h5 and c["trange"]:
        c["ntimes"] = 1
    return c


def make_uvc(cfg, meta_only=False):
    from pyuvdata import UVCal

    cfg = {**UVC_DEFAULT, **cfg}
    if cfg["xor"] is None:
        cfg["xor"] = "east"
    r = np.random.default_rng(cfg["dseed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tel = make_tel(cfg)
        nums = np.array(tel.antenna_numbers)
        ants = nums[:-1] if cfg["subset"] and len(nums) > 2 else nums
        wide = cfg["ctype"] != "gain"
        nf = cfg["nfreqs"]
        nspw = cfg["nspw"] if wide else min(cfg["nspw"], nf)
        kw = {}
        step = 60.0 if cfg["tgap"] else 16.0
        times = start(cfg, step) + np.arange(cfg["ntimes"]) * step / 86400.0
        inttime = np.full(cfg["ntimes"], 16.0)
        if cfg["vint"]:
            inttime = 8.0 * (1 + np.arange(cfg["ntimes"]) % 3)
        if cfg["trange"]:
            kw["time_range"] = np.stack([times, times + 10.0 / 86400.0], axis=1)
        else:
            kw["time_array"] = times
        kw["integration_time"] = inttime
        if wide:
            kw["freq_range"] = np.array([[1.0e8 + 1e7 * i, 1.05e8 + 1e7 * i] for i in range(nspw)])
            kw["cal_type"] = "delay" if cfg["ctype"] == "delay" else "gain"
        else:
            spwid = np.sort(np.arange(nf) % nspw)
            chw = np.full(nf, 125000.0)
            if cfg["chw"] == "var":
                chw = 125000.0 * (1 + spwid)
            freqs = 1.0e8 + spwid * 1.0e7 + np.arange(nf) * chw
            if cfg["chw"] == "half":
                chw = chw / 2
            if cfg["frev"]:
                freqs, spwid, chw = freqs[::-1].copy(), spwid[::-1].copy(), chw[::-1].copy()
            kw.update(freq_array=freqs, channel_width=chw, flex_spw_id_array=spwid)
        jones = list(cfg["jones"])
        flex = cfg["flexjones"] and nspw > 1
        if flex:
            jones = [0]
        nfq = nspw if wide else nf
        sh = (len(ants), nfq, cfg["ntimes"], len(jones))
        data = {}
        if cfg["ctype"] == "delay":
            data["delay_array"] = _quant(r, sh, 40) * 1e-9
        else:
            g = (_quant(r, sh, 8, cfg["full"]) + 1j * _quant(r, sh, 8, cfg["full"]))
            data["gain_array"] = g.astype(np.complex64 if cfg["dtype"] == "c8" else np.complex128)
        data["flag_array"] = {"rand": r.random(sh) < 0.3, "none": np.zeros(sh, bool), "all": np.ones(sh, bool)}[cfg["flags"]]
        qd = np.float32 if cfg["qdtype"] == "f4" else np.float64
        if cfg["quality"]:
            data["quality_array"] = _quant(r, sh, 50).astype(qd)
        if cfg["totq"]:
            data["total_quality_array"] = _quant(r, sh[1:], 50).astype(qd)
        if cfg["style"] == "sky":
            kw.update(ref_antenna_name=str(tel.antenna_names[0]), sky_catalog="simcat")
        if meta_only:
            data = {}
        c = UVCal.new(
            cal_style=cfg["style"], gain_convention=cfg["gconv"], jones_array=np.array([-5] * len(jones) if flex else jones),
            telescope=tel, ant_array=ants, data=data or None, **kw)
        if flex:
            c.jones_array = np.array([0])
            js = [-5, -6, -7, -8]
            c.flex_jones_array = np.array([js[i % 4] for i in range(nspw)])
        c.history = {"plain": "sim cal history", "long": "line of history " * 30,
                     "multi": "first line\nsecond line: with colon\nthird",
                     "version": "made by sim" + c.pyuvdata_version_str}[cfg["hist"]]
        c.gain_scale = cfg["gscale"]
        if cfg["polconv"] and cfg["gscale"] not in (None, "uncalib"):
            c.pol_convention = cfg["polconv"]
        if cfg["misc"]:
            c.observer = "A. Observer"
            c.git_hash_cal = "0123abcd"
            c.git_origin_cal = "https://example.org/cal"
            c.diffuse_model = "GSM_a"
            c.baseline_range = [3.5, 250.0]
            c.Nsources = 12
        c.extra_keywords = ekw(cfg)
        if cfg["scan"]:
            c.scan_number_array = np.arange(cfg["ntimes"]) // 2 + 1
        if cfg["refarr"]:
            c.ref_antenna_array = np.array([ants[i % len(ants)] for i in range(cfg["ntimes"])])
            if cfg["style"] == "sky":
                c.ref_antenna_name = "various"
            else:
                c.ref_antenna_array = None
        if cfg["pcat"]:
            c._add_phase_center("srcA", cat_type="sidereal", cat_lon=0.35, cat_lat=-0.52, cat_frame="icrs")
            c._add_phase_center("srcB", cat_type="sidereal", cat_lon=0.45, cat_lat=-0.42, cat_frame="fk5", cat_epoch=2000.0)
            c.phase_center_id_array = np.arange(cfg["ntimes"]) % 2
        c.check()
    return c


# ------------------------------------------------------------------------ UVBeam
UVB_DEFAULT = {
    "dseed": 1, "btype": "power", "pcs": "az_za", "nfreqs": 2, "n1": 4, "n2": 3, "pols": [-5], "feeds": ["x", "y"],
    "norm": "physical", "xor": None, "bandpass": "one", "ekw": [], "hist": "plain", "opt": False, "nside": 2,
    "ordering": "ring", "partial": False, "dtype": "f8", "basis": "unit", "names": "plain", "freq1": False, "spar": False, "full": False,
    "phased": False,
}


def gen_uvb(rng, fmt="beamfits"):
    ek = ["intk", "fltk", "strk", "boolk", "negk", "bigk", "falsek", "longs", "cplxk"]
    return {
        "dseed": rng.randrange(1 << 30),
        "btype": rng.choice(["power", "efield"]),
        "pcs": rng.choice(["az_za", "az_za", "orthoslant_zenith", "healpix", "healpix"]),
        "nfreqs": rng.choice([1, 2, 3, 4]),
        "n1": rng.choice([1, 4, 5, 8]),
        "n2": rng.choice([1, 3, 4]),
        "pols": rng.choice([[-5], [-5, -6], [-5, -6, -7, -8], [-7, -8], [1], [1, 2, 3, 4], [-1, -2], [-6, -5], [-1, -2, -3, -4]]),
        "feeds": rng.choice([["x", "y"], ["y", "x"], ["x"], ["r", "l"]]),
        "norm": rng.choice(["physical", "peak", "solid_angle"]),
        "xor": rng.choice([None, "east", "north"]),
        "bandpass": rng.choice(["one", "rand", "zero"]),
        "ekw": sorted(rng.sample(ek, rng.choice([0, 0, 1, 3]))),
        "hist": rng.choice(["plain", "long", "multi", "version"]),
        "opt": rng.random() < 0.5,
        "nside": rng.choice([1, 2, 4, 64]),
        "ordering": rng.choice(["ring", "nested"]),
        "partial": rng.random() < 0.4,
        "dtype": rng.choice(["f8", "f4"]),
        "basis": rng.choice(["unit", "rand"]),
        "names": rng.choice(["plain", "spaced"]),
        "spar": rng.random() < 0.3,
        "full": rng.random() < 0.4,
    }


def make_uvb(cfg, meta_only=False):
    from pyuvdata import UVBeam

    cfg = {**UVB_DEFAULT, **cfg}
    r = np.random.default_rng(cfg["dseed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nf = cfg["nfreqs"]
        freqs = 1.0e8 + np.arange(nf) * 1e6
        kw = {}
        hp = cfg["pcs"] == "healpix"
        if hp:
            npix = 12 * cfg["nside"] ** 2
            pix = np.sort(r.permutation(npix)[: max(2, min(npix // 2, 96))]) if cfg["partial"] or npix > 192 else np.arange(npix)
            kw.update(nside=cfg["nside"], ordering=cfg["ordering"], healpix_pixel_array=pix)
            px = (len(pix),)
        else:
            n1, n2 = cfg["n1"], cfg["n2"]
            a1 = np.arange(n1) * (2 * np.pi / 8)
            a2 = np.arange(n2) * (np.pi / 12)
            if cfg["pcs"] != "az_za":
                a1, a2 = np.arange(n1) * 0.125 - 0.25, np.arange(n2) * 0.125 - 0.25
            kw.update(axis1_array=a1, axis2_array=a2)
            px = (n2, n1)
        power = cfg["btype"] == "power"
        if power:
            kw["polarization_array"] = np.array(cfg["pols"])
            sh = (1, len(cfg["pols"]), nf) + px
        else:
            kw["feed_array"] = np.array(cfg["feeds"])
            sh = (2, len(cfg["feeds"]), nf) + px
        d = np.abs(_quant(r, sh, 30, cfg["full"])) + 0.0625
        cross = power and any(p in (-7, -8, -3, -4) for p in cfg["pols"])
        if not power or cross:
            d = d + 1j * _quant(r, sh, 30, cfg["full"])
            if power:
                for k, p in enumerate(cfg["pols"]):
                    if p not in (-7, -8, -3, -4):
                        d[:, k] = d[:, k].real
        if cfg["norm"] == "peak":
            pk = 32.0
            for f in range(nf):
                d[:, :, f].flat[0] = pk
            d = d / pk
            # force the maximum to be exactly one
            mx = np.abs(d)
            d = np.where(mx > 1, d / 64, d)
            for f in range(nf):
                d[:, :, f].flat[0] = 1.0
        f4 = cfg["dtype"] == "f4"
        d = d.astype((np.complex64 if f4 else np.complex128) if np.iscomplexobj(d) else (np.float32 if f4 else np.float64))
        if cfg["basis"] == "rand" and not power:
            kw["basis_vector_array"] = np.round(r.uniform(-0.7, 0.7, size=(2, 2) + px) * 16) / 16
        if cfg["bandpass"] != "one":
            kw["bandpass_array"] = np.round(r.uniform(0.5, 4, nf) * 16) / 16
            if cfg["bandpass"] == "zero":
                kw["bandpass_array"][:: 2] = 0.0
        b = UVBeam.new(
            telescope_name="SIMTEL" if cfg["names"] == "plain" else "Sim Array",
            data_normalization="physical", freq_array=freqs, x_orientation=cfg["xor"],
            feed_name="dish" if cfg["names"] == "plain" else "big dish", feed_version="0.1",
            model_name="m1" if cfg["names"] == "plain" else "E-field pattern, v2", model_version="1.0",
            data_array=d, **kw)
        if cfg["phased"] and not power:
            ne, nfd = 3, len(cfg["feeds"])
            b._set_phased_array()
            b.Nelements = ne
            b.element_coordinate_system = "n-e" if cfg["dseed"] % 2 else "x-y"
            b.element_location_array = _quant(r, (2, ne), 8)
            b.delay_array = _quant(r, ne, 4) * 1e-9
            b.gain_array = _quant(r, ne, 4)
            b.coupling_matrix = _quant(r, (ne, ne, nfd, nfd, nf), 4) + 1j * _quant(r, (ne, ne, nfd, nfd, nf), 4)
        if cfg["pcs"] == "orthoslant_zenith":
            b.pixel_coordinate_system = "orthoslant_zenith"
        b.data_normalization = cfg["norm"]
        if power:
            b.Ncomponents_vec = None
        b.history = {"plain": "sim beam history", "long": "line of history " * 30,
                     "multi": "first line\nsecond line: with colon\nthird",
                     "version": "made by sim" + b.pyuvdata_version_str}[cfg["hist"]]
        if cfg["opt"]:
            b.reference_impedance = 50.0
            b.receiver_temperature_array = np.round(r.uniform(10, 99, nf) * 16) / 16
            b.loss_array = np.round(r.uniform(0, 4, nf) * 16) / 16
            b.mismatch_array = np.round(r.uniform(0, 4, nf) * 16) / 16
        if cfg["spar"]:
            b.s_parameters = np.round(r.uniform(0, 4, (4, nf)) * 16) / 16
        b.extra_keywords = ekw(cfg)
        b.check(check_auto_power=False)
    return b


# ------------------------------------------------------------------------ UVFlag
UVF_DEFAULT = {"src": "uvd", "ftype": "baseline", "mode": "flag", "copy_flags": True, "label": "", "fseed": 1, "ekw": [],
               "hist": "plain", "wsq": False, "full": False, "uvd": {}, "uvc": {}}


def gen_uvf(rng, fmt="uvflag"):
    src = rng.choice(["uvd", "uvd", "uvc"])
    c = {
        "src": src,
        "ftype": rng.choice(["baseline" if src == "uvd" else "antenna", "waterfall"]),
        "mode": rng.choice(["flag", "metric"]),
        "copy_flags": rng.random() < 0.6,
        "label": rng.choice(["", "xrfi", "two words"]),
        "fseed": rng.randrange(1 << 30),
        "ekw": sorted(rng.sample(["intk", "fltk", "strk", "boolk", "negk", "bigk", "falsek", "longs", "nonek"], rng.choice([0, 0, 1, 3]))),
        "hist": rng.choice(["plain", "long", "multi"]),
        "wsq": rng.random() < 0.4,
        "full": rng.random() < 0.4,
    }
    if src == "uvd":
        c["uvd"] = gen_uvd(rng, "uvh5")
        c["uvd"]["phase"] = "unproj"
    else:
        c["uvc"] = gen_uvc(rng, "calh5")
        c["uvc"].update(ctype="gain", trange=False, flexjones=False, polconv=None, pcat=False, refarr=False)
    return c


def make_uvf(cfg, meta_only=False):
    from pyuvdata import UVFlag

    cfg = {**UVF_DEFAULT, **cfg}
    r = np.random.default_rng(cfg["fseed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = make_uvd(cfg["uvd"]) if cfg["src"] == "uvd" else make_uvc(cfg["uvc"])
        base.extra_keywords = {}
        wf = cfg["ftype"] == "waterfall"
        f = UVFlag(base, mode=cfg["mode"], copy_flags=cfg["copy_flags"] and not wf and cfg["mode"] == "flag",
                   waterfall=wf, label=cfg["label"])
        f.history = {"plain": "sim flag history", "long": "line of history " * 30,
                     "multi": "first line\nsecond line: with colon\nthird"}[cfg["hist"]]
        if cfg["mode"] == "metric":
            f.metric_array = _quant(r, f.metric_array.shape, 20, cfg["full"])
            f.weights_array = np.abs(_quant(r, f.metric_array.shape, 4, cfg["full"]))
            if cfg["wsq"] and wf:
                f.weights_square_array = np.abs(_quant(r, f.metric_array.shape, 4, cfg["full"]))
        elif not (cfg["copy_flags"] and not wf):
            f.flag_array = r.random(f.flag_array.shape) < 0.4
        f.extra_keywords = ekw(cfg)
        f.check()
    return f
