"""C09: a UVH5 file written in parts holds exactly the parts that were written."""
import gc
import hashlib
import os

import numpy as np

from .. import disk, fmts, interrupt, objs, sel, snap, wcommon

RUNS = {"quick": 3000, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "kernel tmpfs"]
STUB = ["disk failures (interposed libc layer)", "the instant of an interrupt (line-event seam)", "process restart (a new object made from the file)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5")}
KEYS = ("data_array", "flag_array", "nsample_array")


def gen(rng, i, tier):
    nf = rng.choice([1, 1, 2])
    files = []
    for _ in range(nf):
        c = objs.gen_uvd(rng, "uvh5")
        c["nfreqs"] = max(c["nfreqs"], rng.choice([2, 3, 5]))
        c["ntimes"] = max(c["ntimes"], 2)
        c["hist"], c["scan"] = "version", False
        kw = {}
        if rng.random() < 0.5:
            kw["data_write_dtype"] = rng.choice(["c8", "c16", "i4", "i8", "f4"])
            if kw["data_write_dtype"][0] == "i":
                c["idata"] = True
            if kw["data_write_dtype"] not in ("c16", "i4", "i8"):
                c["full"] = False
        if rng.random() < 0.4:
            kw["data_compression"] = rng.choice(["lzf", "gzip"])
        if rng.random() < 0.3:
            kw["flags_compression"] = rng.choice([None, "gzip"])
        files.append({"cfg": c, "kw": kw, "meta": rng.random() < 0.6, "old": rng.random() < 0.25})
    steps = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        st = {"f": rng.randrange(nf)}
        if r < 0.62:
            st.update(op="part", sel=sel.gen(rng), src=rng.choice(["obj", "obj", "new"]), check=rng.random() < 0.6)
            q = rng.random()
            if q < 0.2:
                st.update(at=interrupt.gen_point(rng), kind=rng.choice(["interrupt", "memory"]))
            elif q < 0.3:
                st.update(faults=[disk.gen_read_fault(rng)])
        elif r < 0.75:
            st.update(op="restart")
        elif r < 0.87:
            st.update(op="wrongshape", sel=sel.gen(rng), how=rng.choice(["data", "flag", "nsample", "all"]))
        elif r < 0.97:
            st.update(op="wrongmeta", sel=sel.gen(rng), how=rng.choice(["vis_units", "integration_time", "antpos", "uvw", "freq", "time", "pols", "names"]))
        else:
            st.update(op="again")
        steps.append(st)
    return {"files": files, "steps": steps, "fill": rng.random() < 0.6, "hist": rng.random() < 0.3,
            "lastfault": [disk.gen_write_fault(rng, fmts.ALL["uvh5"])] if rng.random() < 0.1 else None, "lastsel": sel.gen(rng)}


DT = {"c8": "c8", "c16": "c16", "i4": [("r", "<i4"), ("i", "<i4")], "i8": [("r", "<i8"), ("i", "<i8")], "f4": [("r", "<f4"), ("i", "<f4")]}


class File:
    def __init__(self, ctx, k, fc):
        if fc["kw"].get("data_write_dtype", "c")[0] == "i":  # an integer type holds integers only
            fc = {**fc, "cfg": {**fc["cfg"], "idata": True, "full": False}}
        self.fc, self.ctx = fc, ctx
        self.path = ctx.path(f"p{k}.uvh5")
        self.full = objs.make_uvd(fc["cfg"])
        self.s = snap.snap(self.full)
        self.handle = self.full.copy(metadata_only=True) if fc["meta"] else self.full.copy()
        self.hsnap = snap.snap(self.handle)
        self.init(fc["old"])

    def init(self, old):
        if old:
            with open(self.path, "wb") as f:
                f.write(b"something else" * 100)
        kw = dict(self.fc["kw"])
        if "data_write_dtype" in kw:
            kw["data_write_dtype"] = np.dtype(DT[kw["data_write_dtype"]])
        self.ctx.must(lambda: self.handle.initialize_uvh5_file(self.path, clobber=bool(old), **kw), "init-raises", "initialising the file")
        sh = self.s["data_array"].shape
        self.model = {"data_array": np.zeros(sh, complex), "flag_array": np.zeros(sh, bool), "nsample_array": np.zeros(sh)}
        self.maybe = []  # (index, values): parts that may or may not have been written
        self.loose = None

    def raw(self):
        with open(self.path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()


def part_values(F, st, ind, blt, freq, pol):
    if st["src"] == "obj":
        return {k: F.s[k][ind] for k in KEYS}
    r = np.random.default_rng(st["sel"]["s"])
    sh = F.s["data_array"][ind].shape
    rnd = (lambda x: x) if F.fc["cfg"].get("full") else np.rint
    return {"data_array": (rnd(r.uniform(-99, 99, sh)) + 1j * rnd(r.uniform(-99, 99, sh))).astype(F.s["data_array"].dtype),
            "flag_array": r.random(sh) < 0.5, "nsample_array": np.rint(r.uniform(1, 9, sh)).astype(F.s["nsample_array"].dtype)}


def compare(ctx, F, what):
    import h5py

    if F.loose is not None:
        pass
    from pyuvdata import UVData

    u = UVData()
    ctx.must(lambda: u.read_uvh5(F.path, run_check=False), "unreadable", f"reading the file after {what}")
    got = snap.snap(u)
    for k in KEYS:
        a, b = F.model[k], got[k]
        ctx.check(a.shape == b.shape, "shape", f"{k}: {a.shape} != {b.shape}")
        eq = np.asarray(a == b)
        if F.loose is not None:
            eq = eq | (F.loose["mask"] & np.asarray(F.loose[k] == b))
        bad = np.argwhere(~eq)
        ctx.check(len(bad) == 0, "part-values", lambda: f"after {what}: {k}: {len(bad)} cells differ from what was written, first at "
                  f"{tuple(int(x) for x in bad[0])}: file {b[tuple(bad[0])]!r} model {a[tuple(bad[0])]!r}")
    if F.loose is not None:  # settle on what is there
        for k in KEYS:
            F.model[k] = np.where(F.loose["mask"], got[k], F.model[k])
        F.loose = None
    ign = ("history", "filename", "scan_number_array", *KEYS)
    ctx.same(fmts.ALL["uvh5"].compare({**F.hsnap, **dict.fromkeys(KEYS), "history": got["history"]}, {**got, **dict.fromkeys(KEYS)}),
             "part-header", f"the metadata after {what}")
    del h5py, ign
    return u


def run(sc, ctx):
    fs = [File(ctx, k, fc) for k, fc in enumerate(sc["files"])]
    for F in fs:
        compare(ctx, F, "initialising")
    steps = list(sc["steps"])
    for st in steps:
        F = fs[st["f"] % len(fs)]
        ctx.stats["op:" + st["op"]] += 1
        others = {id(G): G.raw() for G in fs if G is not F}
        if st["op"] == "part":
            part(ctx, F, st)
        elif st["op"] == "restart":
            from pyuvdata import UVData

            u = UVData()
            ctx.must(lambda: u.read_uvh5(F.path, read_data=False), "unreadable", "making an object from the file")
            F.handle, F.hsnap = u, snap.snap(u)
        elif st["op"] == "again":
            F.init(True)
        else:
            wrong(ctx, F, st)
        for G in fs:
            if G is not F:
                ctx.check(G.raw() == others[id(G)], "other-file", "a part written to one file changed another")
        ctx.same(snap.diff(F.hsnap, snap.snap(F.handle), strict_dtype=True), "object-changed", f"the object changed in {st['op']}")
        compare(ctx, F, st["op"])
    if sc["fill"]:
        for F in fs:
            # one pass over the polarizations gives the whole file
            for ip, p in enumerate(F.s["polarization_array"]):
                v = {k: F.s[k][:, :, [ip]] for k in KEYS}
                ctx.must(lambda: F.handle.write_uvh5_part(F.path, data_array=v["data_array"], flag_array=v["flag_array"],
                                                          nsample_array=v["nsample_array"], polarizations=[int(p)]), "part-raises", "completing the file")
            F.model = {k: F.s[k].copy() for k in KEYS}
            u = compare(ctx, F, "completing the file")
            ctx.check(u.check(check_autos=False), "check", "check fails")
    if sc["hist"]:
        F = fs[0]
        v = {k: F.model[k].astype(F.s[k].dtype) for k in KEYS}
        ctx.must(lambda: F.handle.write_uvh5_part(F.path, data_array=v["data_array"], flag_array=v["flag_array"], nsample_array=v["nsample_array"],
                                                  add_to_history=" and more history"), "part-raises", "writing with a history")
        u = compare(ctx, F, "adding to the history")
        ctx.check(F.hsnap["history"].strip() + " and more history" in u.history, "history", "the added history is not there")
    if sc["lastfault"]:
        last_fault(ctx, sc, fs[0])


def write_part(F, kw, v, check):
    F.handle.write_uvh5_part(F.path, data_array=v["data_array"], flag_array=v["flag_array"], nsample_array=v["nsample_array"], check_header=check, **kw)


def part(ctx, F, st):
    kw, blt, freq, pol = sel.resolve(st["sel"], F.hsnap)
    ind = sel.ix(F.s, blt, freq, pol)
    if 0 in F.s["data_array"][ind].shape:
        ctx.stats["empty_selection"] += 1
        return
    v = part_values(F, st, ind, blt, freq, pol)
    what = f"part {sorted(kw)}"
    vin = {k: v[k].copy() for k in KEYS}
    new = {k: F.model[k].copy() for k in KEYS}
    mask = np.zeros(new["data_array"].shape, bool)
    mask[ind] = True
    for k in KEYS:
        new[k][ind] = v[k]
    exc = None
    if "at" in st:
        # the calls of a dry run give the points to interrupt
        import shutil

        keep = F.path + ".dry"
        shutil.copyfile(F.path, keep)
        try:
            with interrupt.Lines() as ln:
                F.handle.write_uvh5_part(keep, **{k: vin[k] for k in KEYS}, check_header=st["check"], **kw)
        except Exception as e:  # noqa: BLE001
            raise_part(ctx, e, kw)
        os.unlink(keep)
        with interrupt.Lines(ln.pick(*st["at"]), st["kind"]) as ln2:
            try:
                write_part(F, kw, vin, st["check"])
            except BaseException as e:  # noqa: BLE001
                exc = type(e).__name__
        ctx.stats["sim_steps"] += ln2.n
        if ln2.fired:
            ctx.stats["fault:" + st["kind"]] += 1
            ctx.check(exc is not None, "swallowed-interrupt", f"an injected {st['kind']} at {ln2.where} was swallowed")
        gc.collect()
    elif "faults" in st:
        dk = disk.Disk(ctx, F.path)
        dk.start(st["faults"], {"READ": 40, "OPEN_R": 3, "ANYR": 40})
        _, e = ctx.attempt(lambda: write_part(F, kw, vin, st["check"]))
        fired = dk.stop()
        if any(fired):
            ctx.stats["runs_with_fault"] += 1
        elif e is not None:
            raise_part(ctx, e, kw)
        exc = None if e is None else type(e).__name__
        e = None
        gc.collect()
    else:
        ctx.must(lambda: write_part(F, kw, vin, st["check"]), "part-raises", what)
    ctx.mix(what, exc)
    for k in KEYS:
        ctx.check(np.array_equal(v[k], vin[k]), "inputs-changed", f"{k} passed to write_uvh5_part was changed")
    ctx.check(not wcommon.fds(F.path), "fd-leak", "the file is still open")
    if exc is None:
        F.model = new
    else:
        ctx.stats["failed_parts"] += 1
        F.loose = {**new, "mask": mask}


def raise_part(ctx, e, kw):
    raise_ = e

    def f():
        raise raise_

    ctx.must(f, "part-raises", f"part {sorted(kw)}")


def wrong(ctx, F, st):
    kw, blt, freq, pol = sel.resolve(st["sel"], F.hsnap)
    ind = sel.ix(F.s, blt, freq, pol)
    v = {k: F.s[k][ind] for k in KEYS}
    if v["data_array"].size == 0:
        return
    before = F.raw()
    if st["op"] == "wrongshape":
        names = {"data": ["data_array"], "flag": ["flag_array"], "nsample": ["nsample_array"], "all": list(KEYS)}[st["how"]]
        for k in names:
            v[k] = np.concatenate([v[k], v[k]], axis=1)
        h = F.handle
    else:
        h = F.handle.copy()
        how = st["how"]
        if how == "vis_units":
            h.vis_units = "Jy" if h.vis_units != "Jy" else "uncalib"
        elif how == "integration_time":
            h.integration_time = h.integration_time * 2
        elif how == "antpos":
            h.telescope.antenna_positions = h.telescope.antenna_positions + np.array([5.0, 0, 0])
        elif how == "uvw":
            h.uvw_array = h.uvw_array + 10.0
        elif how == "freq":
            h.freq_array = h.freq_array + 5e6
            kw.pop("frequencies", None)
        elif how == "time":
            h.time_array = h.time_array + 0.5
            kw = {k: x for k, x in kw.items() if k not in ("times", "time_range")}
        elif how == "pols":
            h.polarization_array = np.where(h.polarization_array < -4, h.polarization_array + 4, -5 - np.arange(len(h.polarization_array)))
            kw = {k: x for k, x in kw.items() if k not in ("polarizations", "bls", "ant_str")}
        elif how == "names":
            h.telescope.antenna_names = np.array([str(x) + "z" for x in h.telescope.antenna_names])
            kw.pop("antenna_names", None)
    _, e = ctx.attempt(lambda: h.write_uvh5_part(F.path, **v, **kw))
    ctx.check(e is not None, "accepted:" + st["op"], f"{st['op']} ({st['how']}) was accepted")
    ctx.check(F.raw() == before, "refused-changed", f"a refused part ({st['op']} {st['how']}) changed the file")
    ctx.stats["refused"] += 1


def last_fault(ctx, sc, F):
    kw, blt, freq, pol = sel.resolve(sc["lastsel"], F.hsnap)
    ind = sel.ix(F.s, blt, freq, pol)
    v = {k: F.s[k][ind] for k in KEYS}
    if v["data_array"].size == 0:
        return

    def body():
        dk = disk.Disk(ctx, F.path)
        with disk.Unraisable() as un:
            dk.start(sc["lastfault"], {"WRITE": 12, "OPEN_W": 1, "TRUNC": 2, "META": 1, "ANYW": 14})
            _, e = ctx.attempt(lambda: write_part(F, kw, v, False))
            e2 = e is not None
            e = None
            gc.collect()
            fired = dk.stop()
        if any(fired):
            ctx.stats["runs_with_fault"] += 1
        if e2:
            ctx.stats["failed_parts"] += 1
            return True
        if any(fired) and un.h5py():
            ctx.known.append("h5py-swallows-dealloc-error")
            return True
        for k in KEYS:
            F.model[k][ind] = v[k]
        compare(ctx, F, "a part written to a failing disk")
        return True

    kind, val = ctx.in_child(body)
    if kind == "died":
        ctx.check(val == -11, "process-died", f"status {val}")
        ctx.known.append("hdf5-crash-after-failed-write")
    else:
        ctx.check(kind == "ok", "failed", str(val))
