"""C17: combining pieces in memory gives their union, whatever the order, the tree and the way; refusals and interrupts cost nothing."""
import random

import numpy as np

from .. import fmts, interrupt, merge, objs, sel, snap

RUNS = {"quick": 3000, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata"]
STUB = ["interrupts and failed allocations (raised at line events of the package)"]
KINDS = ["uvd", "uvc", "uvb", "uvf", "uvd", "uvc"]
MAKE = {"uvd": (objs.gen_uvd, objs.make_uvd), "uvc": (objs.gen_uvc, objs.make_uvc), "uvb": (objs.gen_uvb, objs.make_uvb), "uvf": (objs.gen_uvf, objs.make_uvf)}
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}
CHK = {"uvd": {"check_autos": False}, "uvc": {}, "uvb": {}, "uvf": {}}


def gen(rng, i, tier):
    k = KINDS[i % len(KINDS)]
    cfg = MAKE[k][0](rng)
    if k == "uvb":
        cfg["phased"] = rng.random() < 0.4
    if cfg.get("nspw", 1) == 1 and "nfreqs" in cfg:
        cfg["nfreqs"] = max(cfg["nfreqs"], rng.choice([2, 3, 4]))
    if "ntimes" in cfg and not cfg.get("trange"):
        cfg["ntimes"] = max(cfg["ntimes"], rng.choice([2, 3]))
    return {"kind": k, "cfg": cfg, "n": rng.choice([2, 2, 3, 3, 4]), "axis": rng.random(), "split": rng.randrange(1 << 30), "inter": rng.random() < 0.5,
            "perm": [rng.randrange(1 << 20) if rng.random() < 0.5 else 0 for _ in range(4)], "ragged": rng.randrange(1 << 20) if rng.random() < 0.4 else 0,
            "grid": rng.random() if rng.random() < 0.3 else None, "tree": rng.randrange(1 << 20), "concat": rng.random() < 0.25, "inplace": rng.random(),
            "meta": rng.random() < 0.1, "points": [{"at": interrupt.gen_point(rng), "kind": rng.choice(["interrupt", "memory"])} for _ in range(rng.choice([0, 0, 1, 2]))],
            "dup": rng.random() < 0.3, "ids": rng.randrange(1, 1 << 20) if rng.random() < 0.5 else 0, "clash": rng.random() < 0.3, "flexpol": rng.random() < 0.2}


AXES = {"uvd": ["Nblts", "time", "Nfreqs", "Npols"], "uvc": ["Nants_data", "Ntimes", "chan", "Njones"], "uvb": ["Nfreqs", "pol", "pix", "pix2"], "uvf": ["time", "Nfreqs", "Npols", "ant"]}
CAT = {"Nblts": "blt", "Nfreqs": "freq", "Npols": "polarization", "Nants_data": "antenna", "Ntimes": "time", "Njones": "jones", "Nspws": "spw"}
FCAT = {"Nfreqs": "frequency", "Npols": "polarization", "Nants_data": "antenna", "Ntimes": "time"}


def take(obj, fm, axis, ix):
    """The object with the given entries of one axis, in the given order (independent of the package's own selection)."""
    out = obj.copy()
    ix = np.asarray(ix)
    for n, f in fm.items():
        v = getattr(out, n)
        if isinstance(v, np.ndarray) and v.ndim == len(f):
            for j, a in enumerate(f):
                if a == axis:
                    v = v.take(ix, axis=j)
            setattr(out, n, v)
    k = merge.kind(obj)
    if axis == "Nblts":
        out.Nblts = len(ix)
        out.Ntimes = len(set(out.time_array.tolist()))
        out.Nbls = len(set(zip(out.ant_1_array.tolist(), out.ant_2_array.tolist())))
        out.Nants_data = len(set(out.ant_1_array.tolist()) | set(out.ant_2_array.tolist()))
        if k == "uvd":
            out.blt_order = None
            out.set_rectangularity(force=True)
    else:
        setattr(out, axis, len(ix))
    if k == "uvb" and axis == "Npols" and not set(out.polarization_array.tolist()) & {-3, -4, -7, -8} and np.iscomplexobj(out.data_array):
        out.data_array = out.data_array.real.copy()
    if axis == "Nfreqs" and getattr(out, "flex_spw_id_array", None) is not None:
        left = out.flex_spw_id_array.tolist()
        old = out.spw_array.tolist()
        keep = [i for i, x in enumerate(old) if x in left]
        if len(keep) < len(old):
            out = take(out, fm, "Nspws", keep)
    return out


def _axis(k, obj, name):
    """axis of the arrays and the groups of its entries that have to stay together"""
    if name == "Nblts":
        key = list(zip(obj.ant_1_array.tolist(), obj.ant_2_array.tolist()))
    elif name == "time":
        if k == "uvf" and obj.type != "baseline":
            return "Ntimes", [[i] for i in range(obj.Ntimes)]
        key = obj.time_array.tolist()
    elif name == "chan":
        if obj.wide_band:
            return "Nspws", [[i] for i in range(obj.Nspws)]
        return _axis(k, obj, "Nfreqs") if obj.freq_array is not None else (None, [])
    elif name == "Nfreqs":
        ids = getattr(obj, "flex_spw_id_array", None)
        if ids is None or len(set(ids.tolist())) == 1:
            return "Nfreqs", [[i] for i in range(obj.Nfreqs)]
        name, key = "Nfreqs", ids.tolist()
    elif name == "pol":
        n = "Npols" if obj.beam_type == "power" else "Nfeeds"
        return n, [[i] for i in range(getattr(obj, n))]
    elif name in ("pix", "pix2"):
        n = "Npixels" if obj.pixel_coordinate_system == "healpix" else {"pix": "Naxes1", "pix2": "Naxes2"}[name]
        return n, [[i] for i in range(getattr(obj, n))]
    elif name == "ant":
        if obj.type != "antenna":
            return None, []
        return "Nants_data", [[i] for i in range(obj.Nants_data)]
    else:
        n = getattr(obj, name)
        if name == "Njones" and obj.flex_jones_array is not None or name == "Npols" and getattr(obj, "flex_spw_polarization_array", None) is not None:
            return None, []
        if name == "Ntimes" and obj.time_array is None and obj.time_range is None:
            return None, []
        return name, [[i] for i in range(n)]
    gs = {}
    for i, x in enumerate(key):
        gs.setdefault(x, []).append(i)
    return ("Nblts" if name in ("Nblts", "time") else "Nfreqs"), list(gs.values())


def cut(rng, groups, n, inter):
    n = min(n, len(groups))
    ix = list(range(len(groups)))
    if inter:
        rng.shuffle(ix)
        parts = [sorted(ix[j::n]) for j in range(n)]
    else:
        c = sorted(rng.sample(range(1, len(groups)), n - 1)) if n > 1 else []
        parts = [ix[a:b] for a, b in zip([0] + c, c + [len(ix)])]
    return [sorted(i for g in p for i in groups[g]) for p in parts]


def shuffled(rng, k, obj, axis):
    """A permutation of one axis that keeps the object valid."""
    n = getattr(obj, axis)
    if axis == "Nfreqs":
        ids = getattr(obj, "flex_spw_id_array", None)
        ids = [0] * n if ids is None else ids.tolist()
        gs = {}
        for i, x in enumerate(ids):
            gs.setdefault(x, []).append(i)
        bl = list(gs.values())
        rng.shuffle(bl)
        for b in bl:
            if rng.random() < 0.5:
                b.reverse()
            else:
                rng.shuffle(b)
        return [i for b in bl for i in b]
    ix = list(range(n))
    rng.shuffle(ix)
    return ix


def pieces(sc, k, obj):
    fm = sel.forms(obj)
    rng = random.Random(sc["split"])
    names = AXES[k]
    i0 = int(sc["axis"] * len(names))
    for j in range(len(names)):
        axis, gs = _axis(k, obj, names[(i0 + j) % len(names)])
        if axis is not None and len(gs) > 1:
            break
    else:
        return None, None, None
    inter = sc["inter"] and axis not in ("Nspws",)
    rows = [take(obj, fm, axis, ix) for ix in cut(rng, gs, sc["n"], inter)]
    second = None
    if sc["grid"] is not None and k in ("uvd", "uvc"):
        second, g2 = _axis(k, obj, names[int(sc["grid"] * len(names))])
        if second in (axis, None) or len(g2) < 2:
            second = None
    if second is not None:
        rows = [[take(p, fm, second, ix) for ix in cut(rng, g2, 2, False)] for p in rows]
    else:
        rows = [[p] for p in rows]
    r2 = random.Random(sc["ragged"])
    if sc["ragged"] and second is None and not sc["concat"] and k in ("uvd", "uvc"):
        # every piece lacks some entries of another axis: the rest of the union is filled and flagged
        for row in rows:
            if r2.random() < 0.7:
                a2, g2 = _axis(k, row[0], r2.choice([n for n in names if _axis(k, obj, n)[0] not in (axis, None)]))
                if len(g2) > 1:
                    keep = sorted(r2.sample(range(len(g2)), r2.randrange(1, len(g2))))
                    row[0] = take(row[0], fm, a2, sorted(i for g in keep for i in g2[g]))
    # entries in another order
    own_only = sc["concat"] or k in ("uvf",)
    for nax, ps in zip([a for a in ("Nblts", "Nfreqs", "Npols", "Njones", "Nants_data", "Ntimes", "Nspws", "Nfeeds", "Npixels", "Naxes1", "Naxes2") if any(a in f for f in fm.values())], sc["perm"] * 2):
        if not ps or (own_only and nax != axis) or (nax == "Nspws" and not (k == "uvc" and obj.wide_band)):
            continue
        if not isinstance(getattr(obj, nax), int) or k == "uvc" and nax == "Ntimes" and obj.time_range is not None and axis != "Ntimes":
            continue
        if k == "uvf" and nax == "Nants_data" and obj.type != "antenna" or k == "uvd" and nax in ("Nants_data", "Ntimes") or k == "uvf" and obj.type == "baseline" and nax == "Ntimes":
            continue
        r3 = random.Random(ps)
        for row in rows:
            for j in range(len(row)):
                if r3.random() < 0.6:
                    row[j] = take(row[j], fm, nax, shuffled(r3, k, row[j], nax))
    if sc["ids"] and k == "uvd":
        for row in rows:
            for j, p in enumerate(row):
                renumber(random.Random(sc["ids"] + j), p)
    return axis, second, rows


def renumber(rng, obj):
    """The same phase centers under other ids (an id is only a key into the object's own catalog)."""
    old = list(obj.phase_center_catalog)
    new = rng.sample(range(len(old) + 3), len(old))
    to = dict(zip(old, new))
    obj.phase_center_catalog = {to[i]: obj.phase_center_catalog[i] for i in rng.sample(old, len(old))}
    obj.phase_center_id_array = np.array([to[i] for i in obj.phase_center_id_array.tolist()], dtype=obj.phase_center_id_array.dtype)


def clash(rng, k, b):
    """b with one attribute that keeps it valid but makes the combination impossible; None if there is no such."""
    c = b.copy()
    if k == "uvd":
        if rng.random() < 0.5:
            c.vis_units = "K str" if c.vis_units != "K str" else "Jy"
        else:
            c.telescope.name = "ELSEWHERE"
    elif k == "uvc":
        if rng.random() < 0.5:
            c.gain_convention = "divide" if c.gain_convention == "multiply" else "multiply"
        else:
            c.telescope.name = "ELSEWHERE"
    elif k == "uvb":
        if c.antenna_type == "phased_array":
            n = rng.choice(["gain_array", "delay_array", "element_location_array"])
            setattr(c, n, getattr(c, n) * 2 + 1)
        else:
            c.data_normalization = "physical" if c.data_normalization != "physical" else "peak"
    else:
        return None
    return c


def combine(k, how, a, b, axis):
    kw = {"check_autos": False} if False else {}
    if k == "uvf":
        ax = {"Nblts": "baseline" if len(set(a.time_array.tolist()) & set(b.time_array.tolist())) else "time", **FCAT}[axis]
        if how == "iadd":
            a.__add__(b, axis=ax, inplace=True, **kw)
            return a
        return a.__add__(b, axis=ax, **kw)
    if how == "iadd":
        a += b
        return a
    return a + b


def run(sc, ctx):
    k = sc["kind"]
    obj = MAKE[k][1](sc["cfg"])
    if sc["meta"] and k in ("uvd", "uvc"):
        obj = obj.copy(metadata_only=True) if k == "uvd" else obj
    if sc["flexpol"] and k == "uvd":
        if not sc["meta"]:
            obj.convert_to_flex_pol()
    axis, second, rows = pieces(sc, k, obj)
    if axis is None:
        ctx.stats["skipped"] += 1
        return
    for row in rows:
        for p in row:
            ctx.must(lambda p=p: p.check(**CHK[k]), f"harness:{k}", "check of a piece")
    rng = random.Random(sc["tree"])
    ctx.mix(k, axis, second, [len(r) for r in rows])
    pts = list(sc["points"])
    cls = f"combined:{k}"
    if sc["concat"] and k in ("uvd", "uvc") and second is None and axis in CAT:
        concat(sc, ctx, k, axis, [r[0] for r in rows], rng, pts)
        return

    def join(items, ax, strict):
        """Merge (object, snapshots) items in a random tree."""
        while len(items) > 1:
            i, j = rng.sample(range(len(items)), 2)
            (a, sa), (b, sb) = items[i], items[j]
            how = "iadd" if rng.random() < sc["inplace"] else "add"
            before = snap.snap(a), snap.snap(b)
            desc = f"{'a += b' if how == 'iadd' else 'a + b'} along {ax}, {len(sa)} and {len(sb)} pieces"
            if pts and rng.random() < 0.6:
                interrupted(ctx, k, a, b, ax, before, pts.pop())
            if sc["dup"] and rng.random() < 0.5 and k != "uvf" and not (k == "uvd" and sc["meta"]):
                refused(ctx, k, a, a.copy(), rng.choice(["add", "iadd"]), ax, before[0], "an object to its copy")
            if sc["clash"] and rng.random() < 0.5:
                c = clash(rng, k, b)
                if c is not None:
                    refused(ctx, k, a, c, rng.choice(["add", "iadd"]), ax, before[0], "objects that do not go together")
            got, exc = ctx.attempt(lambda: combine(k, how, a, b, ax))
            if exc is not None:
                if how == "add" or True:
                    ctx.same(snap.diff(before[0], snap.snap(a), strict_dtype=True), f"refused-changed:{k}", f"{desc} was refused ({str(exc)[:80]}) and changed its left operand")
                ctx.same(snap.diff(before[1], snap.snap(b), strict_dtype=True), f"refused-changed:{k}", f"{desc} was refused ({str(exc)[:80]}) and changed its right operand")
                if legit(k, exc, obj, strict) or sc["ids"] and ax != "Nblts" and "UVParameter phase_center" in str(exc):  # (ids have to agree where rows are shared)
                    ctx.stats["refused"] += 1
                    ctx.mix("refused", str(exc)[:40])
                    return None
                ctx.must(lambda: (_ for _ in ()).throw(exc), f"combine-raises:{k}", desc)
            if how == "add":
                ctx.same(snap.diff(before[0], snap.snap(a), strict_dtype=True), f"operand:{k}", f"{desc} changed its left operand")
            ctx.same(snap.diff(before[1], snap.snap(b), strict_dtype=True), f"operand:{k}", f"{desc} changed its right operand")
            merge.check(ctx, sa + sb, got, cls, desc)
            ctx.stats["merges"] += 1
            items = [x for n, x in enumerate(items) if n not in (i, j)] + [(got, sa + sb)]
        return items[0]

    items = []
    for row in rows:
        r = [(p, [snap.snap(p)]) for p in row]
        r = join(r, second, True)
        if r is None:
            return
        items.append(r)
    join(items, axis, not sc["ragged"])


def legit(k, exc, obj, strict):
    """Refusals that are part of the interface."""
    t = str(exc)
    if k == "uvc" and obj.time_range is not None and "A time_range overlaps" in t:
        return True  # (ranges are never combined along another axis)
    if k == "uvf" and "is not the same on the two objects" in t:
        return True  # (only what agrees on the other axes is combined)
    if not strict and ("overlapping data" in t or "run the add operation again" in t):
        return True
    return False


def refused(ctx, k, a, c, how, ax, before, what):
    """Combinations that are not possible are refused and cost nothing."""
    b0 = snap.snap(c)
    got, exc = ctx.attempt(lambda: combine(k, how, a, c, ax))
    ctx.check(exc is not None, f"overlap-accepted:{k}", lambda: f"adding {what} along {ax} returned normally")
    ctx.same(snap.diff(before, snap.snap(a), strict_dtype=True), f"refused-changed:{k}", f"a refused combination ({how}, {str(exc)[:60]}) changed its left operand")
    ctx.same(snap.diff(b0, snap.snap(c), strict_dtype=True), f"refused-changed:{k}", f"a refused combination ({how}, {str(exc)[:60]}) changed its right operand")
    ctx.stats["bad_refused"] += 1


def interrupted(ctx, k, a, b, ax, before, pt):
    """An interrupt in a + b at any point leaves both as they were."""
    with interrupt.Lines() as ln:
        _, exc = ctx.attempt(lambda: combine(k, "add", a, b, ax))
    if exc is not None:
        return
    exc = None
    with interrupt.Lines(ln.pick(*pt["at"]), pt["kind"]) as l2:
        try:
            combine(k, "add", a, b, ax)
        except BaseException as e:  # noqa: BLE001
            exc = e
    ctx.stats["sim_steps"] += l2.n + ln.n
    ctx.mix(l2.n, l2.where, type(exc).__name__)
    if l2.fired:
        ctx.stats[f"fault:{pt['kind']}"] += 1
        ctx.check(exc is not None, f"swallowed-interrupt:{k}", f"an injected {pt['kind']} at {l2.where} was swallowed")
    ctx.same(snap.diff(before[0], snap.snap(a), strict_dtype=True), f"interrupted-changed:{k}", f"a + b interrupted at {l2.where} changed its left operand")
    ctx.same(snap.diff(before[1], snap.snap(b), strict_dtype=True), f"interrupted-changed:{k}", f"a + b interrupted at {l2.where} changed its right operand")


def concat(sc, ctx, k, axis, ps, rng, pts):
    rng.shuffle(ps)
    snaps = [snap.snap(p) for p in ps]
    inpl = rng.random() < sc["inplace"]
    desc = f"fast_concat of {len(ps)} along {CAT[axis]}, inplace={inpl}"

    def go():
        r = ps[0].fast_concat(ps[1:], CAT[axis], inplace=inpl)
        return ps[0] if inpl else r

    if sc["clash"]:
        c = clash(rng, k, ps[-1])
        _, exc = ctx.attempt(lambda: ps[0].fast_concat(ps[1:-1] + [c], CAT[axis], inplace=inpl))
        ctx.check(exc is not None, f"overlap-accepted:{k}", lambda: "concatenating objects that do not go together returned normally")
        ign = ("phase_center_catalog", "phase_center_id_array", "Nphase", "Nphases")  # documented: these may change
        for j, p in enumerate(ps):
            ctx.same(snap.diff(snaps[j], snap.snap(p), strict_dtype=True, ignore=ign), f"refused-changed:{k}", f"{desc} was refused ({str(exc)[:60]}) and changed object {j}")
        ctx.stats["bad_refused"] += 1
        snaps = [snap.snap(p) for p in ps]
    got = ctx.must(go, f"combine-raises:{k}", desc)
    merge.check(ctx, snaps, got, f"combined:{k}", desc, order=axis)
    for j, p in enumerate(ps):
        if j or not inpl:
            ign = ("phase_center_catalog", "phase_center_id_array", "Nphase", "Nphases") if j else ()  # documented: these may change
            ctx.same(snap.diff(snaps[j], snap.snap(p), strict_dtype=True, ignore=ign), f"operand:{k}", f"{desc} changed object {j}")
    ctx.stats["concats"] += 1
