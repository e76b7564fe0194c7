"""Readers of formats that pyuvdata cannot write, on copies of the repository's sample files.

Each sample: the files (below src/pyuvdata/data), and how they are read.
"""
import os
import shutil


def data(*a):
    from pyuvdata.data import DATA_PATH

    return os.path.join(DATA_PATH, *a)


def sites():
    """The site registry that astropy would download (there is no network)."""
    from astropy.coordinates import EarthLocation
    from astropy.coordinates.sites import SiteRegistry

    EarthLocation._site_registry = SiteRegistry.from_json({"mwa": {
        "name": "Murchison Widefield Array", "aliases": ["mwa", "MWA"], "longitude": 116.67081524, "longitude_unit": "degree",
        "latitude": -26.70331941, "latitude_unit": "degree", "elevation": 377.827, "elevation_unit": "meter", "source": "simulated"}})


def cst_files(d):
    """Two small CST exports and their settings file."""
    import numpy as np

    shutil.copyfile(data("NicCSTbeams", "NicCSTbeams.yaml"), os.path.join(d, "NicCSTbeams.yaml"))
    names = ["Theta [deg.]", "Phi   [deg.]", "Abs(V   )[V/m   ]", "Abs(Theta)[V/m   ]", "Phase(Theta)[deg.]",
             "Abs(Phi  )[V/m   ]", "Phase(Phi  )[deg.]", "Ax.Ratio[dB    ]"]
    for f, n in ((150, 0.3), (123, 0.7)):
        rows = []
        for phi in range(0, 360, 15):
            for th in range(0, 181, 15):
                a = 1 + np.cos(np.radians(th)) ** 2 + n * np.sin(np.radians(phi)) ** 2
                b = 0.5 + n * np.cos(np.radians(phi + th)) ** 2
                rows.append(f"{th:9.3f} {phi:9.3f} {np.hypot(a, b):.6e} {a:.6e} {(7 * th + phi) % 360:9.3f} {b:.6e} {(3 * phi + th) % 360:9.3f} {40.0:.3e}")
        with open(os.path.join(d, f"HERA_NicCST_{f}MHz.txt"), "w") as h:
            h.write("  ".join(names) + "\n" + "-" * 90 + "\n" + "\n".join(rows) + "\n")


def mwa_files(d):
    """Two coarse channels of the same times."""
    from astropy.io import fits

    shutil.copyfile(data(MWA + "1131733552.metafits"), os.path.join(d, "1131733552.metafits"))
    src = data(MWA + "1131733552_20151116182537_mini_gpubox01_00.fits")
    shutil.copyfile(src, os.path.join(d, "1131733552_mini_gpubox01_00.fits"))
    with fits.open(src, memmap=False) as h:
        for x in h:
            if x.data is not None:
                x.data = x.data * 2 + 1
        h.writeto(os.path.join(d, "1131733552_mini_gpubox06_00.fits"))


MWA = "mwa_corr_fits_testfiles/"
FHD = "fhd_vis_data/"
FCAL = "fhd_cal_data/"


class Sample:
    casa = h5 = abortive = isdir = False
    make = None  # writes the files instead of copying them

    def __init__(self, name, cls, files, read, opts=(), **kw):
        self.name, self.cls, self.files, self._read, self.opts = name, cls, files, read, opts
        self.__dict__.update(kw)

    def ext(self):
        return self.name

    def copy(self, d):
        """Copy the sample to the (new) directory d."""
        sites()
        os.makedirs(d)
        if self.make is not None:
            return self.make(d)
        for f in self.files:
            t = os.path.join(d, os.path.basename(f))
            if os.path.isdir(data(f)):
                os.makedirs(t)
                for r, ds, fs in os.walk(data(f)):
                    for x in ds:
                        os.makedirs(os.path.join(t, os.path.relpath(os.path.join(r, x), data(f))))
                    for x in fs:
                        shutil.copyfile(os.path.join(r, x), os.path.join(t, os.path.relpath(os.path.join(r, x), data(f))))
            else:
                shutil.copyfile(data(f), t)

    def new(self):
        import pyuvdata

        return getattr(pyuvdata, self.cls)()

    def paths(self, d):
        return [os.path.join(d, os.path.basename(f)) for f in self.files]

    def read(self, d, obj=None, **kw):
        obj = self.new() if obj is None else obj
        self._read(obj, self.paths(d), **kw)
        return obj

    def gen_kw(self, rng):
        kw = {}
        for k, vals in self.opts:
            if rng.random() < 0.5:
                kw[k] = rng.choice(vals)
        return kw


def _list(fn):
    return lambda o, p, **k: getattr(o, fn)(p, **k)


def _one(fn):
    return lambda o, p, **k: getattr(o, fn)(p[0], **k)


def _fhd(o, p, **k):
    by = {os.path.basename(x).split("_", 1)[1]: x for x in p}
    m = bool(k.pop("use_model", False))
    vis = [x for n, x in by.items() if n.startswith("vis_") and ("model" in n) == m]
    o.read_fhd(vis, params_file=by["params.sav"], obs_file=by["obs.sav"], flags_file=by["flags.sav"],
               layout_file=by["layout.sav"], settings_file=by["settings.txt"], **k)


def _fhdcal(o, p, **k):
    by = {os.path.basename(x).split("_", 1)[1]: x for x in p}
    o.read_fhd_cal(cal_file=by["cal.sav"], obs_file=by["obs.sav"], layout_file=by.get("layout.sav"), settings_file=by["settings.txt"], **k)


_ID = "1061316296_"
_MWA_OPTS = (("correct_cable_len", [True]), ("phase_to_pointing_center", [True]), ("flag_init", [False]),
             ("remove_dig_gains", [False]), ("remove_coarse_band", [False]), ("remove_flagged_ants", [False]),
             ("data_array_dtype", ["complex128"]), ("nsample_array_dtype", ["float64"]), ("flag_dc_offset", [False]))


def _mwa(o, p, **k):
    import numpy as np

    for x in ("data_array_dtype", "nsample_array_dtype"):
        if x in k:
            k[x] = getattr(np, k[x])
    o.read_mwa_corr_fits(p, **k)


def _mir(o, p, **k):
    o.read_mir(p[0], **k)


def _cst(o, p, **k):
    o.read_cst_beam(p[0], **k)


def _mwab(o, p, **k):
    o.read_mwa_beam(p[0], **k)


_ALL = [
    Sample("mwa", "UVData", [MWA + "1131733552.metafits", MWA + "1131733552_20151116182537_mini_gpubox01_00.fits",
                             MWA + "1131733552_mini_01.mwaf"], _mwa, _MWA_OPTS + (("use_aoflagger_flags", [True, False]),)),
    Sample("mwa2", "UVData", ["1131733552.metafits", "1131733552_mini_gpubox01_00.fits", "1131733552_mini_gpubox06_00.fits"], _mwa, _MWA_OPTS, make=mwa_files),
    Sample("mwax", "UVData", [MWA + "1320409688.metafits", MWA + "1320409688_20211108122750_mini_ch137_000.fits"], _mwa, _MWA_OPTS),
    Sample("fhd", "UVData", [FHD + "vis_data/" + _ID + x for x in ("flags.sav", "vis_XX.sav", "vis_YY.sav", "vis_model_XX.sav", "vis_model_YY.sav")]
           + [FHD + "metadata/" + _ID + x for x in ("layout.sav", "obs.sav", "params.sav", "settings.txt")], _fhd,
           (("use_model", [True]),)),
    Sample("fhdcal", "UVCal", [FCAL + "calibration/" + _ID + "cal.sav"] + [FCAL + "metadata/" + _ID + x for x in ("layout.sav", "obs.sav", "settings.txt")],
           _fhdcal, (("raw", [False]), ("read_data", [False]))),
    Sample("mir", "UVData", ["sma_test.mir"], _mir, (("apply_flags", [False]), ("apply_tsys", [False]), ("pseudo_cont", [True]),
                                                     ("rechunk", [2048, 4096]), ("corrchunk", [1]))),
    Sample("miradio", "UVData", ["new.uvA"], _one("read_miriad"), (("read_data", [False]),), abortive=True),
    Sample("atca", "UVData", ["atca_miriad"], _one("read_miriad"), (), abortive=True),
    Sample("oldh5", "UVData", ["zen.2458661.23480.HH_oldproj_icrs.uvh5"], _one("read_uvh5"),
           (("read_data", [False]), ("fix_old_proj", [False]))),
    Sample("oldfits", "UVData", ["zen.2456865.60537.xy.uvcRREAAM.uvfits"], _one("read_uvfits"), (("read_data", [False]),)),
    Sample("smagain", "UVCal", ["sma.ms.pha.gcal"], _one("read_ms_cal"), (), casa=True, abortive=True),
    Sample("oldcal", "UVCal", ["zen.2457698.40355.xx.gain.calfits"], _one("read_calfits"), (("read_data", [False]),)),
    Sample("mwabeam", "UVBeam", ["mwa_full_EE_test.h5"], _mwab, (("pixels_per_deg", [1]), ("freq_range", [[1e8, 1.5e8]]))),
    Sample("cst", "UVBeam", ["NicCSTbeams.yaml"], _cst, (("frequency_select", [[123e6], [150e6]]), ("beam_type", ["power"])), make=cst_files),
]
ALL = {s.name: s for s in _ALL}
