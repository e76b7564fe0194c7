"""What each file format promises to keep.

compare(written, read) lists every difference between the snapshot of the
object that was written and the snapshot of what a reader got back, beyond
what the format documents it cannot store.
"""
import os
import shutil

import numpy as np

from . import canon, snap


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def _tol(table):
    def f(path):
        last = path.rsplit(".", 1)[-1].split("[")[0]
        return table.get(path) or table.get(last)
    return f


_LOC = {"telescope.location.xyz": (0, 1e-3), "xyz": (0, 1e-3)}


def _hist(a, b):
    """The history must be kept; readers may append to it."""
    ha, hb = a.get("history") or "", b.get("history") or ""
    na, nb = "".join(ha.split()), "".join(hb.split())  # the formats wrap lines
    return [] if nb.startswith(na) else [f"history: {snap._short(ha)} is not a prefix of {snap._short(hb)}"]


class Fmt:
    name = ""
    isdir = False
    casa = False
    h5 = False  # written through h5py
    abortive = False  # a C library below ends the process on I/O errors
    ignore = ()
    tol = {}
    strict_dtype = False

    def ext(self):
        return self.name

    def write(self, obj, path, **kw):
        raise NotImplementedError

    def read(self, path, obj=None, **kw):
        raise NotImplementedError

    def prep(self, a, b):
        return a, b

    def gen_kw(self, rng):
        """Write options (JSON)."""
        return {"run_check": False} if rng.random() < 0.15 else {}

    def more(self, want, kw):
        """Other contents of the file: (label, expected snapshot, read options)."""
        return []

    def adjust(self, cfg, kw):
        """Make configuration and options fit together (after generation)."""

    def expect(self, obj, kw):
        """Snapshot of what a reader should get back for these write options."""
        return snap.snap(obj)

    def compare(self, a, b):
        a, b = self.prep(a, b)
        return _hist(a, b) + snap.diff(a, b, tol=_tol({**_LOC, **self.tol}), strict_dtype=self.strict_dtype,
                                      ignore=("history", "filename") + tuple(self.ignore))


# ------------------------------------------------------------------- UVData
class UVH5(Fmt):
    name = "uvh5"
    h5 = True
    ignore = ("scan_number_array",)

    def gen_kw(self, rng):
        kw = super().gen_kw(rng)
        if rng.random() < 0.4:
            kw["data_compression"] = rng.choice(["lzf", "gzip"])
        if rng.random() < 0.3:
            kw["flags_compression"] = rng.choice([None, "gzip"])
        if rng.random() < 0.3:
            kw["nsample_compression"] = rng.choice([None, "gzip"])
        if rng.random() < 0.25:
            kw["data_write_dtype"] = rng.choice(["i4", "c8", "c16"])
        if rng.random() < 0.15:
            kw = {**kw, "chunks": None, "data_compression": None, "flags_compression": None, "nsample_compression": None}
        return kw

    def expect(self, obj, kw):
        s = super().expect(obj, kw)
        w = kw.get("data_write_dtype")
        if w is not None and isinstance(s["data_array"], np.ndarray):
            s["data_array"] = s["data_array"].astype({"i4": np.complex128, "c8": np.complex64, "c16": np.complex128}[w])
        return s

    def adjust(self, cfg, kw):
        if kw.get("data_write_dtype") == "i4":
            cfg["idata"] = True

    @staticmethod
    def dtype(w):
        if w is None:
            return None
        if w == "bad":
            return np.dtype([("r", "<i4"), ("i", "<i8")])
        return w if w[0] == "c" else np.dtype([("r", "<" + w), ("i", "<" + w)])

    def write(self, obj, path, **kw):
        kw["data_write_dtype"] = self.dtype(kw.get("data_write_dtype"))
        obj.write_uvh5(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVData

        obj = UVData() if obj is None else obj
        obj.read_uvh5(path, **kw)
        return obj

    def compare(self, a, b):
        out = super().compare(a, b)
        for k in ("data_array", "flag_array", "time_array", "freq_array", "uvw_array"):
            if isinstance(a.get(k), np.ndarray) and isinstance(b.get(k), np.ndarray) and a[k].dtype != b[k].dtype:
                out.append(f"{k}: dtype {a[k].dtype} != {b[k].dtype}")
        return out


class UVFITS(Fmt):
    name = "uvfits"
    ignore = ("scan_number_array", "eq_coeffs", "eq_coeffs_convention", "uvplane_reference_time", "blt_order",
              "blts_are_rectangular", "time_axis_faster_than_bls", "info_source", "cat_times")
    tol = {"uvw_array": (1e-6, 1e-5), "lst_array": (0, 1e-7), "time_array": (0, 1e-8), "integration_time": (1e-6, 0),
           "phase_center_app_ra": (0, 1e-8), "phase_center_app_dec": (0, 1e-8), "phase_center_frame_pa": (0, 1e-8),
           "cat_lon": (0, 1e-9), "cat_lat": (0, 1e-9), "antenna_positions": (0, 1e-3), "freq_array": (1e-12, 0),
           "dut1": (1e-6, 1e-6), "nsample_array": (1e-6, 0), "eq_coeffs": (1e-6, 0)}

    def gen_kw(self, rng):
        kw = super().gen_kw(rng)
        if rng.random() < 0.2:
            kw["write_lst"] = False
        if rng.random() < 0.2:
            kw["use_miriad_convention"] = True
        return kw

    def adjust(self, cfg, kw):
        if cfg["antnum"] in ("plain", "gap"):  # antenna 0: documented renumbering
            kw.pop("use_miriad_convention", None)

    def write(self, obj, path, **kw):
        kw.pop("clobber", None)
        obj.write_uvfits(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVData

        obj = UVData() if obj is None else obj
        obj.read_uvfits(path, **kw)
        return obj

    def prep(self, a, b):
        a, b = canon.canon_uvd(a), canon.canon_uvd(b)
        for k in ("dut1", "gst0", "rdate", "earth_omega", "timesys"):
            if a[k] is None:
                a[k] = b[k]
        a["extra_keywords"] = {k.upper()[:8]: v for k, v in a["extra_keywords"].items()}
        if isinstance(a["flag_array"], np.ndarray):
            a["flag_array"] = a["flag_array"] | (a["nsample_array"] == 0)
        for s in (a, b):
            for c in s["phase_center_catalog"].values():
                if c.get("cat_epoch") is None:
                    c["cat_epoch"] = 2000.0
        return a, b


class Miriad(Fmt):
    name = "miriad"
    abortive = True
    isdir = True
    ignore = ("scan_number_array", "eq_coeffs", "eq_coeffs_convention", "uvplane_reference_time", "blt_order",
              "blts_are_rectangular", "time_axis_faster_than_bls", "info_source", "cat_times")
    tol = {"uvw_array": (1e-9, 1e-6), "lst_array": (0, 1e-7), "time_array": (0, 1e-8), "integration_time": (1e-6, 0),
           "antenna_positions": (0, 1e-6), "cat_lon": (0, 1e-9), "cat_lat": (0, 1e-9)}

    def gen_kw(self, rng):
        kw = super().gen_kw(rng)
        if rng.random() < 0.3:
            kw["calc_lst"] = True
        return kw

    def expect(self, obj, kw):
        obj = obj.copy()
        obj.conjugate_bls("ant1<ant2")  # documented: the format's convention
        return snap.snap(obj)

    def write(self, obj, path, **kw):
        obj.write_miriad(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVData

        obj = UVData() if obj is None else obj
        obj.read_miriad(path, **kw)
        return obj

    def prep(self, a, b):
        a, b = canon.canon_uvd(a), canon.canon_uvd(b)
        for s in (a, b):  # the ephemeris is resampled at the data times
            if "mover" in s["phase_center_catalog"]:
                s["phase_center_catalog"] = {**s["phase_center_catalog"], "mover": None}
        return a, b


class MS(Fmt):
    name = "ms"
    casa = True
    abortive = True
    isdir = True
    ignore = ("eq_coeffs", "eq_coeffs_convention", "uvplane_reference_time", "blt_order",
              "blts_are_rectangular", "time_axis_faster_than_bls", "info_source", "instrument",
              "dut1", "gst0", "rdate", "earth_omega", "timesys", "cat_dist", "cat_vrad")
    tol = {"lst_array": (0, 1e-7), "time_array": (0, 1e-8), "cat_times": (0, 1e-7), "phase_center_app_ra": (0, 1e-8),
           "phase_center_app_dec": (0, 1e-8), "phase_center_frame_pa": (0, 1e-8), "cat_pm_ra": (1e-9, 0), "cat_pm_dec": (1e-9, 0)}

    def gen_kw(self, rng):
        kw = super().gen_kw(rng)
        if rng.random() < 0.2:
            kw["flip_conj"] = True
        if rng.random() < 0.2:
            kw["model_data"] = True
        if rng.random() < 0.2:
            kw["corrected_data"] = True
        return kw

    def adjust(self, cfg, kw):
        if cfg["autos"]:  # the reader cannot recognise the conjugation of autos alone
            kw.pop("flip_conj", None)

    def write(self, obj, path, **kw):
        for k, m in (("model_data", 2), ("corrected_data", 3)):
            if kw.get(k):
                kw[k] = obj.data_array * m
        obj.write_ms(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVData

        obj = UVData() if obj is None else obj
        kw.setdefault("ignore_single_chan", False)
        obj.read_ms(path, **kw)
        return obj

    def more(self, want, kw):
        out = []
        for k, m, col in (("model_data", 2, "MODEL_DATA"), ("corrected_data", 3, "CORRECTED_DATA")):
            if kw.get(k):
                out.append((col, {**want, "data_array": want["data_array"] * m}, {"data_column": col}))
        return out

    def prep(self, a, b):
        a, b = canon.canon_uvd(a), canon.canon_uvd(b)
        b["extra_keywords"] = {k: v for k, v in b["extra_keywords"].items() if k in a["extra_keywords"] or k not in ("DATA_COL", "observer")}
        if a["scan_number_array"] is None:
            a["scan_number_array"] = b["scan_number_array"]
        # the history sits inside the HISTORY table
        b["history"] = a["history"] if " ".join(a["history"].split()) in " ".join((b["history"] or "").split()) else b["history"]
        return a, b


UVD = {f.name: f() for f in (UVH5, UVFITS, Miriad, MS)}


# -------------------------------------------------------------------- UVCal
class CALFITS(Fmt):
    name = "calfits"
    ignore = ("scan_number_array", "ref_antenna_array", "phase_center_catalog", "phase_center_id_array", "Nphase", "instrument",
              "filename", "Nsources")
    tol = {"time_array": (0, 1e-8), "time_range": (0, 1e-8), "freq_array": (1e-12, 0), "lst_array": (0, 1e-7),
           "lst_range": (0, 1e-7), "integration_time": (1e-9, 1e-6), "antenna_positions": (0, 1e-6), "freq_range": (1e-12, 0),
           "delay_array": (1e-12, 0)}

    def write(self, obj, path, **kw):
        obj.write_calfits(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVCal

        obj = UVCal() if obj is None else obj
        obj.read_calfits(path, **kw)
        return obj

    def prep(self, a, b):
        a = dict(a)
        a["extra_keywords"] = {k.upper()[:8]: v for k, v in a["extra_keywords"].items()}
        if a["cal_type"] == "delay":  # the (unused) channel width ends up here
            a, b = ({**x, "extra_keywords": {k: v for k, v in x["extra_keywords"].items() if k != "CHWIDTH"}} for x in (a, b))
        return a, b


class CALH5(Fmt):
    name = "calh5"
    h5 = True

    def gen_kw(self, rng):
        kw = super().gen_kw(rng)
        if rng.random() < 0.4:
            kw["data_compression"] = rng.choice(["lzf", "gzip"])
        if rng.random() < 0.3:
            kw["flags_compression"] = rng.choice([None, "gzip"])
        if rng.random() < 0.3:
            kw["quality_compression"] = rng.choice([None, "gzip"])
        if rng.random() < 0.15:
            kw = {**kw, "chunks": None, "data_compression": None, "flags_compression": None, "quality_compression": None}
        return kw

    def write(self, obj, path, **kw):
        obj.write_calh5(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVCal

        obj = UVCal() if obj is None else obj
        obj.read_calh5(path, **kw)
        return obj


class MSCAL(Fmt):
    name = "mscal"
    casa = True
    abortive = True
    isdir = True
    ignore = ("instrument", "Nsources", "git_hash_cal", "git_origin_cal", "diffuse_model", "baseline_range", "filename", "info_source")
    tol = {"time_array": (0, 1e-8), "time_range": (0, 1e-8), "freq_array": (1e-12, 0), "lst_array": (0, 1e-7),
           "lst_range": (0, 1e-7), "integration_time": (1e-9, 1e-6), "antenna_positions": (0, 1e-6), "freq_range": (1e-12, 0),
           "delay_array": (1e-12, 0), "gain_array": (1e-6, 1e-6), "quality_array": (1e-6, 0), "cat_times": (0, 1e-7)}

    def gen_kw(self, rng):
        return {}

    def adjust(self, cfg, kw):
        cfg["gconv"] = "divide"
        cfg["flexjones"] = False
        if len(cfg["jones"]) > 2:
            cfg["jones"] = cfg["jones"][:2]

    def write(self, obj, path, **kw):
        obj.write_ms_cal(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVCal

        obj = UVCal() if obj is None else obj
        obj.read_ms_cal(path, **kw)
        return obj

    def prep(self, a, b):
        return canon.canon_mscal(a, b)


class BEAMFITS(Fmt):
    name = "beamfits"
    tol = {"freq_array": (1e-12, 0), "axis1_array": (0, 1e-9), "axis2_array": (0, 1e-9)}

    def gen_kw(self, rng):
        return {"run_check": False} if rng.random() < 0.15 else {"check_auto_power": False}

    def write(self, obj, path, **kw):
        obj.write_beamfits(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVBeam

        obj = UVBeam() if obj is None else obj
        kw.setdefault("check_auto_power", False)
        obj.read_beamfits(path, **kw)
        return obj

    def prep(self, a, b):
        a = dict(a)
        a["extra_keywords"] = {k.upper()[:8]: v for k, v in a["extra_keywords"].items()}
        return a, b


class UVFLAG(Fmt):
    name = "uvflag"
    h5 = True

    def gen_kw(self, rng):
        return {"data_compression": rng.choice([None, "gzip", "lzf"])} if rng.random() < 0.5 else {}

    def write(self, obj, path, **kw):
        obj.write(path, **kw)

    def read(self, path, obj=None, **kw):
        from pyuvdata import UVFlag

        obj = UVFlag() if obj is None else obj
        obj.read(path, **kw)
        return obj


CAL = {f.name: f() for f in (CALFITS, CALH5, MSCAL)}
BEAM = {"beamfits": BEAMFITS()}
FLAG = {"uvflag": UVFLAG()}
ALL = {**UVD, **CAL, **BEAM, **FLAG}
MAKE = {**{k: ("cfg", "make_uvd", "gen_uvd") for k in UVD}, **{k: ("cfg", "make_uvc", "gen_uvc") for k in CAL},
        "beamfits": ("cfg", "make_uvb", "gen_uvb"), "uvflag": ("cfg", "make_uvf", "gen_uvf")}


def maker(name):
    from . import objs

    return getattr(objs, MAKE[name][1])


def generator(name):
    from . import objs

    return lambda rng: getattr(objs, MAKE[name][2])(rng, name)


def default_cfg(name):
    from . import objs

    return {"make_uvd": objs.UVD_DEFAULT, "make_uvc": objs.UVC_DEFAULT, "make_uvb": objs.UVB_DEFAULT, "make_uvf": objs.UVF_DEFAULT}[MAKE[name][1]]
