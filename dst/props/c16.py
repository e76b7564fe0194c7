"""C16: threads that work on objects of their own get what they would get alone."""
import os
import shutil

import numpy as np

from .. import fmts, objs, samples, sched, snap
from .c12 import P as P0

RUNS = {"quick": 1400, "thorough": 40000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy", "Miriad C library", "casacore", "real threads"]
STUB = ["the thread scheduler (baton passing at line events)", "the instant of an interrupt (line-event seam)", "astropy's site registry (fixed entry for the MWA)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "cfg2": fmts.default_cfg("uvh5")}
NAMES = ["uvh5", "uvfits", "miriad", "ms", "calh5", "calfits", "mscal", "beamfits", "uvflag", "miriad", "uvh5"]
SAMPLES = ["mwa", "fhd", "fhdcal", "mir", "atca", "oldh5", "cst"]
P = P0 + [("turns", 1), ("turns", 2), ("turns", 5)]
UVD = ("uvh5", "uvfits", "miriad", "ms")


def gen(rng, i, tier):
    progs = []
    n = rng.choice([2, 2, 2, 3])
    same = rng.random() < 0.4
    f0 = rng.choice(NAMES)
    r0 = rng.choice([0.3, 0.3, 0.6, 0.9]) if rng.random() < 0.4 else None  # (every thread does the same to files of the same format)
    clash = rng.random() < 0.3  # (the same keywords with values of different types)
    if clash and rng.random() < 0.6:
        f0, r0 = rng.choice(["miriad", "miriad", "uvh5", "uvfits", "ms"]), 0.3
    for k in range(n):
        r = rng.random() if r0 is None else r0
        if k and (same and r < 0.7 or r0 is not None):
            f = f0
        else:
            f = f0 if k == 0 else rng.choice(NAMES)
        if r < 0.08:
            progs.append({"op": "sample", "name": rng.choice(SAMPLES)})
        elif r < 0.14:
            progs.append({"op": "telescope", "name": rng.choice(["HERA", "PAPER", "SMA", "mwa", "SZA"])})
        elif r < 0.22:
            progs.append({"op": "meta", "cfg": objs.gen_uvd(rng, "uvh5"), "fmt": "uvh5"})
        elif r < 0.5:
            progs.append({"op": "write", "fmt": f, "cfg": fmts.generator(f)(rng), "kw": fmts.ALL[f].gen_kw(rng)})
        elif r < 0.8:
            progs.append({"op": "read", "fmt": f, "cfg": fmts.generator(f)(rng), "twice": rng.random() < 0.3, "bg": rng.random() < 0.5})
        else:
            progs.append({"op": "work", "fmt": f, "cfg": fmts.generator(f)(rng), "what": rng.randrange(1 << 20)})
        p = progs[-1]
        if k and r0 is not None and "cfg" in p and "cfg" in progs[0] and rng.random() < 0.6:
            p["cfg"] = dict(progs[0]["cfg"])
            if "kw" in progs[0]:
                p["kw"] = dict(progs[0]["kw"])
            p["cfg"]["dseed"] = rng.randrange(1 << 30)
        if "fmt" in p:
            if clash:
                p["cfg"]["ekw"] = sorted(set(p["cfg"].get("ekw", [])) | {"intk", "fltk", "strk", "negk"})
                p["cfg"]["ekalt"] = k % 2 == 1
            fmts.ALL[p["fmt"]].adjust(p["cfg"], p.setdefault("kw", {}))
    return {"after": rng.random() < 0.5, "progs": progs, "share": rng.random() < 0.4, "shared": [rng.randrange(len(QUERIES)) for _ in range(rng.randint(1, 4))], "cfg": objs.gen_uvd(rng, "uvh5"),
            "runs": [{"seed": rng.randrange(1 << 30), "p": rng.randrange(1, len(P)), "fault": [rng.randrange(n), round(rng.random() ** 2, 4)] if rng.random() < 0.25 else None}
                     for _ in range(rng.choice([2, 3, 4]))]}


# queries of an object that several threads hold
QUERIES = [
    lambda o, b: o.get_data(b),
    lambda o, b: o.get_flags(b, squeeze="none"),
    lambda o, b: o.get_nsamples(b[:2]),
    lambda o, b: o.get_times(b[:2]),
    lambda o, b: o.antpair2ind(b[0], b[1]),
    lambda o, b: o.get_antpairs(),
    lambda o, b: o.get_antpairpols(),
    lambda o, b: o.baseline_to_antnums(o.antnums_to_baseline(b[0], b[1])),
    lambda o, b: [x for x, y in o.antpairpol_iter()],
    lambda o, b: o.get_ENU_data_ants(),
    lambda o, b: snap.snap(o.select(bls=[b[:2]], inplace=False)),
    lambda o, b: snap.snap(o.copy()),
    lambda o, b: o == o.copy(),
    lambda o, b: o.check(),
    lambda o, b: o.get_pols(),
    lambda o, b: o.get_feedpols(),
    lambda o, b: o._key2inds(b),
    lambda o, b: o.get_lst_array() if hasattr(o, "get_lst_array") else o.lst_array,
]


def work(o, what):
    """Something that changes an object of one's own."""
    import random

    r = random.Random(what)
    n = type(o).__name__
    if n == "UVData":
        w = r.randrange(6)
        if w == 0:
            o.conjugate_bls("ant2<ant1")
        elif w == 1:
            o.phase(lon=1.0 + r.random(), lat=-0.3, cat_name="there", phase_frame="icrs", cat_type="sidereal")
        elif w == 2:
            a, b = o.select(freq_chans=[0], inplace=False), o.select(freq_chans=list(range(1, o.Nfreqs)), inplace=False) if o.Nfreqs > 1 else None
            if b is not None:
                o = a + b
        elif w == 3:
            o.reorder_blts("baseline")
        elif w == 4:
            o.set_lsts_from_time_array(background=True).join()
        else:
            o.phase_to_time(o.time_array[0])
        o.reorder_pols()
    elif n == "UVCal":
        if o.Nspws == 1 and not o.wide_band:
            o.reorder_freqs(channel_order="-freq")
        o.reorder_antennas("-number")
        o = o.copy()
        o.set_lsts_from_time_array()
    elif n == "UVBeam":
        if o.beam_type == "efield" and o.pixel_coordinate_system == "az_za":
            o.efield_to_power()
        o.peak_normalize()
    else:
        if o.mode == "flag":
            o.to_metric(convert_wgts=True)
        else:
            o.to_flag()
    o.history += str(r.random())
    return o


def run(sc, ctx):
    from pyuvdata import uvdata as _u  # noqa: F401
    from pyuvdata.uvdata import FastUVH5Meta

    samples.sites()
    shared = objs.make_uvd(sc["cfg"]) if sc["share"] else None
    if shared is not None:
        b = (int(shared.ant_1_array[0]), int(shared.ant_2_array[0]), int(shared.polarization_array[0]))
        held = snap.snap(shared)

    def prepare(d):
        os.makedirs(d)
        out = []
        for k, p in enumerate(sc["progs"]):
            q = os.path.join(d, f"p{k}")
            if p["op"] == "sample":
                samples.ALL[p["name"]].copy(q)
                out.append((q, None))
            elif p["op"] == "telescope":
                out.append((q, None))
            else:
                o = fmts.maker(p["fmt"])(p["cfg"])
                if p["op"] in ("read", "meta"):
                    ctx.must(lambda o=o, p=p, q=q: fmts.ALL[p["fmt"]].write(o, q, **p["kw"]), f"write-raises:{p['fmt']}", "fault-free write")
                out.append((q, o))
        return out

    def program(k, q, o):
        p = sc["progs"][k]
        op, res = p["op"], []
        if op == "sample":
            res.append(snap.snap(samples.ALL[p["name"]].read(q)))
        elif op == "telescope":
            from pyuvdata import Telescope

            t = Telescope.from_known_telescopes(p["name"], run_check=False)
            res.append(snap.snap(t))
        elif op == "meta":
            with FastUVH5Meta(q) as m:
                for a in ("antpairs", "unique_antnums", "times", "lsts", "nants_data" if False else "Nblts", "baseline_array", "unique_antpair_1_array", "antpos_enu", "pols"):
                    res.append(snap.norm(getattr(m, a)))
                res.append(m.has_key(b[:2]) if shared is not None else m.has_key((0, 1)))
                res.append(snap.snap(m.to_uvdata()))
        elif op == "write":
            f = fmts.ALL[p["fmt"]]
            f.write(o, q, **p["kw"])
            res.append(snap.snap(o))
            res.append(snap.snap(f.read(q), skip=("filename",)))
        elif op == "read":
            f = fmts.ALL[p["fmt"]]
            kw = {"background_lsts": p["bg"]} if p["fmt"] in UVD else {}
            for _ in range(2 if p["twice"] else 1):
                res.append(snap.snap(f.read(q, **kw)))
        else:
            res.append(snap.snap(work(o, p["what"])))
        if shared is not None:
            for x in sc["shared"]:
                res.append(snap.norm(QUERIES[x](shared, b)))
        return res

    def guarded(k, q, o):
        try:
            return program(k, q, o)
        except Exception as e:  # noqa: BLE001  (must then fail in the same way in a thread)
            return [f"{type(e).__name__}: {str(e)[:200].replace(os.path.dirname(q), '')}"]

    def alone(k):
        q, o = prepare(ctx.path(f"a{k}"))[k]
        with sched.Sched(1, (0.0, 0.0), 1.0) as s:
            out = guarded(k, q, o)
            s.finish()
        return out, s.main.n

    want = []
    for k in range(len(sc["progs"])):  # (each in a process of its own)
        kind, w = ctx.in_child(lambda k=k: alone(k))
        ctx.check(kind == "ok", "alone", lambda: f"program {k} run alone: {kind} {w}")
        want.append(w)

    def same(k, got, cls, what):
        p = sc["progs"][k]
        desc = f"{p['op']} {p.get('fmt', p.get('name', ''))}"
        ctx.check(len(got) == len(want[k][0]), f"{cls}:{p['op']}", lambda: f"{desc}: gives {str(got)[:300]} instead of {str(want[k][0])[:300]}")
        for x, y in zip(want[k][0], got):
            x, y = ({"v": z} if not isinstance(z, dict) else z for z in (x, y))
            ctx.same(snap.diff(x, y), f"{cls}:{p['op']}", f"{desc}: {what} made a difference")

    for r, spec in enumerate(sc["runs"]):
        d = ctx.path(f"t{r}")
        prep = prepare(d)
        with sched.Sched(spec["seed"], P[spec["p"]], 0.5) as s:
            ts = [s.spawn(lambda k=k, q=q, o=o: guarded(k, q, o), f"w{k}") for k, (q, o) in enumerate(prep)]
            hit = None
            if spec["fault"] is not None:
                hit = spec["fault"][0]
                ts[hit].fault = (int(spec["fault"][1] * want[hit][1]), KeyboardInterrupt("simulated"))
            s.finish()
        ctx.mix(tuple(s.trace[:200]), s.n)
        ctx.stats["sim_steps"] += s.n
        ctx.stats["switches"] += s.switches
        ctx.stats["schedules"] += 1
        for k, t in enumerate(ts):
            p = sc["progs"][k]
            what = f"{p['op']} {p.get('fmt', p.get('name', ''))}"
            if hit == k and t.where is not None:
                ctx.stats["fault:interrupt"] += 1
                continue
            ctx.check(t.exc is None, f"thread-raises:{p['op']}", lambda t=t, what=what: f"{what}: {type(t.exc).__name__}: {str(t.exc)[:300]}")
            same(k, t.value, "thread-differs", "another thread")
        if shared is not None:
            ctx.same(snap.diff(held, snap.snap(shared), strict_dtype=True), "shared-changed", "queries changed the object they were made to")
        shutil.rmtree(d, ignore_errors=True)
    if sc["after"]:
        for k, (q, o) in enumerate(prepare(ctx.path("z"))):
            same(k, guarded(k, q, o), "later-differs", "what was done before in this process")


def warm(d):
    import importlib
    import pkgutil

    import pyuvdata

    for m in pkgutil.walk_packages(pyuvdata.__path__, "pyuvdata."):
        if "data" not in m.name.split(".")[1:2]:
            importlib.import_module(m.name)
    samples.sites()
    for n in SAMPLES:
        samples.ALL[n].copy(os.path.join(d, n))
        samples.ALL[n].read(os.path.join(d, n))


np.seterr(all="ignore")
