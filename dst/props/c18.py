"""C18: flags and metrics stay with the baseline, time, channel and polarization they were made for, through conversions and when they are applied."""
import random

import numpy as np

from .. import fmts, interrupt, objs, sel, snap
from . import c17

RUNS = {"quick": 3000, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py"]
STUB = ["interrupts and failed allocations (raised at line events of the package)"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "ccfg": fmts.default_cfg("calh5")}
REFUSED = (ValueError, NotImplementedError)
OPS = {"waterfall": ["tobl", "tobl", "toant", "apply", "apply", "perm", "perm", "perm", "mode", "collapse", "file"],
       "baseline": ["towf", "towf", "apply", "apply", "apply", "perm", "perm", "mode", "collapse", "file", "drop"],
       "antenna": ["towf", "tobl", "tobl", "apply", "apply", "perm", "perm", "mode", "file", "drop", "drop"]}


def gen(rng, i, tier):
    cfg = objs.gen_uvd(rng)
    if cfg["nspw"] == 1:
        cfg["nfreqs"] = max(cfg["nfreqs"], rng.choice([1, 2, 3, 4]))
    cfg["ntimes"], cfg["nbls"] = max(cfg["ntimes"], rng.choice([1, 2, 3])), max(cfg["nbls"], rng.choice([1, 2, 3]))
    if rng.random() < 0.5:
        cfg.update(rect=True)
    cal = i % 3 == 2
    if cal and rng.random() < 0.8:  # (solutions and data that have their polarizations in common)
        cfg.update(pols=rng.choice([[-5], [-6], [-5, -6], [-5, -6, -7, -8], [-1], [-1, -2]]), flexpol=False, xor=cfg["xor"] or "east")
        cfg["nbls"] = max(cfg["nbls"], rng.choice([2, 3, 4]))
    return {"cfg": cfg, "cal": cal, "wf": rng.random() < (0.25 if cal else 0.5), "mode": rng.choice(["flag"] * (6 if cal else 2) + ["metric"]), "seed": rng.randrange(1 << 30),
            "steps": [{"f": rng.random(), "seed": rng.randrange(1 << 30), **({"at": interrupt.gen_point(rng), "kind": rng.choice(["interrupt", "memory"])} if rng.random() < 0.3 else {})} for _ in range(rng.randint(1, 5))]}


# -- model: every value under its labels


def rows(s):
    t = s["time_array"].tolist()
    if s["type"] == "waterfall":
        return [(x,) for x in t]
    return list(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist(), t))


def freqs(s):
    f = s["freq_array"].tolist()
    ids = s.get("flex_spw_id_array")
    return list(zip(ids.tolist() if ids is not None else [0] * len(f), f))


def flat(s):
    """{(row, channel, polarization): value}; value is a flag or (metric, weight)"""
    names = ["flag_array"] if s["mode"] == "flag" else ["metric_array", "weights_array"]
    if s.get("weights_square_array") is not None:
        names = names + ["weights_square_array"]
    arrs = [s[n] for n in names]
    if s["type"] == "antenna":
        # (ant, freq, time, pol) -> rows (ant, time)
        arrs = [np.swapaxes(a, 1, 2).reshape((-1,) + (a.shape[1], a.shape[3])) for a in arrs]
        rr = [(a, t) for a in np.asarray(s["ant_array"]).tolist() for t in s["time_array"].tolist()]
    else:
        rr = rows(s)
    ff, pp = freqs(s), [str(p) for p in s["polarization_array"].tolist()]
    arrs = [a.tolist() for a in arrs]
    out = {}
    for i, r in enumerate(rr):
        for j, f in enumerate(ff):
            for k, p in enumerate(pp):
                v = tuple(a[i][j][k] for a in arrs)
                out[(r, f, p)] = v[0] if len(v) == 1 else v
    return out


def compare(ctx, want, got, cls, what):
    miss = [k for k in want if k not in got]
    more = [k for k in got if k not in want]
    ctx.check(not miss and not more, cls, lambda: f"{what}: labels {('missing ' + str(miss[:2])) if miss else ''} {('unexpected ' + str(more[:2])) if more else ''}")
    bad = [k for k in want if not close(want[k], got[k])]
    ctx.check(not bad, cls, lambda: f"{what}: {len(bad)} of {len(want)} values are not those of their labels, first at {bad[0]}: expected {want[bad[0]]}, found {got[bad[0]]}")


def close(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, b))
    return bool(a) == bool(b) if not isinstance(b, tuple) else False


def first(v):
    """(squares of the weights are only there for waterfalls)"""
    return v[:2] if isinstance(v, tuple) else v


def to_bl(s, d, t):
    """d of snapshot s broadcast to the rows of the snapshot t of a baseline-type object"""
    out = {}
    ff, pp = freqs(s), [str(p) for p in t["polarization_array"].tolist()]
    one = [str(p) for p in s["polarization_array"].tolist()]
    ants = np.asarray(s["ant_array"]).tolist() if s["type"] == "antenna" else None
    tset = set(s["time_array"].tolist())
    for r in zip(t["ant_1_array"].tolist(), t["ant_2_array"].tolist(), t["time_array"].tolist()):
        for f in ff:
            for p in pp:
                q = p if p in one else one[0]
                if s["type"] == "waterfall":
                    v = first(d[((r[2],), f, q)]) if r[2] in tset else (False if s["mode"] == "flag" else (0.0, 0.0))
                else:
                    v = r[2] not in tset or any(a not in ants or d[((a, r[2]), f, q)] for a in r[:2])
                out[(r, f, p)] = v
    return out


def shuffle_obj(rng, k, o, axes, prob=0.6):
    fm = sel.forms(o)
    for ax in axes:
        if rng.random() < prob and isinstance(getattr(o, ax, None), int) and getattr(o, ax) > 1:
            o = c17.take(o, fm, ax, c17.shuffled(rng, k, o, ax))
    return o


# -- steps


def run(sc, ctx):
    from pyuvdata import UVCal, UVFlag

    rng = random.Random(sc["seed"])
    base = objs.make_uvd(sc["cfg"])
    base.flag_array = np.random.default_rng(sc["seed"] + 1).random(base.flag_array.shape) < 0.15
    src = base
    cal = None
    if sc["cal"]:
        cal, exc = ctx.attempt(lambda: UVCal.initialize_from_uvdata(base, gain_convention="multiply", cal_style="redundant", metadata_only=False))
        if exc is not None:
            ctx.stats["skipped"] += 1
            return
        cal = shuffle_obj(rng, "uvc", cal, ["Nants_data", "Ntimes", "Njones"], 0.4)
        src = cal
    uvf = ctx.must(lambda: UVFlag(src, mode=sc["mode"], waterfall=sc["wf"]), "make:uvf", "making the flag object")
    fill(uvf, rng)
    for st in sc["steps"]:
        uvf = step(sc, ctx, uvf, base, cal, st)
        ctx.must(uvf.check, "invalid:uvf", "check")
    ctx.mix(snap.digest(snap.snap(uvf)))


def fill(uvf, rng):
    r = np.random.default_rng(rng.randrange(1 << 30))
    if uvf.mode == "flag":
        uvf.flag_array = r.random(uvf.flag_array.shape) < 0.4
    else:
        uvf.metric_array = r.integers(0, 9, uvf.metric_array.shape) * 1.0
        uvf.weights_array = r.integers(1, 5, uvf.metric_array.shape) * 1.0


def step(sc, ctx, uvf, base, cal, st):
    from pyuvdata import UVFlag

    rng = random.Random(st["seed"])
    ops = OPS[uvf.type]
    op = ops[int(st["f"] * len(ops))]
    s = snap.snap(uvf)
    d = flat(s)
    ctx.mix(op, uvf.type, uvf.mode)
    ctx.stats[f"op:{op}"] += 1
    cls = f"{op}:{uvf.type}"

    def inplace(fn, want, what):
        """fn changes uvf in place; want() is the labelled content afterwards"""
        _, exc = ctx.attempt(fn)
        if exc is not None:
            ctx.check(isinstance(exc, REFUSED), f"raises:{cls}", lambda: f"{what} raised {type(exc).__name__}: {str(exc)[:200]}")
            ctx.stats["refused"] += 1
            ctx.mix(str(exc)[:30])
            compare(ctx, d, flat(snap.snap(uvf)), f"refused:{cls}", what + f" (refused: {str(exc)[:150]})")
            return
        compare(ctx, want(), flat(snap.snap(uvf)), f"labels:{cls}", what)

    if op == "perm":
        o = shuffle_obj(rng, "uvf", uvf, ["Npols"] + {"waterfall": ["Ntimes"], "baseline": ["Nblts"], "antenna": ["Ntimes", "Nants_data"]}[uvf.type])
        compare(ctx, d, flat(snap.snap(o)), "harness", "permutation")
        return o
    if op == "drop":
        if uvf.type == "baseline" and uvf.Nblts > 1:
            keep = sorted(rng.sample(range(uvf.Nblts), rng.randint(1, uvf.Nblts)))
            return c17.take(uvf, sel.forms(uvf), "Nblts", keep)
        if uvf.type == "antenna" and uvf.Nants_data > 1:
            keep = sorted(rng.sample(range(uvf.Nants_data), rng.randint(1, uvf.Nants_data)))
            return c17.take(uvf, sel.forms(uvf), "Nants_data", keep)
        return uvf
    if op == "file":
        p = ctx.path("f.h5")
        ctx.must(lambda: uvf.write(p, clobber=True), "write:uvf", "write")
        g = ctx.must(lambda: UVFlag(p), "read:uvf", "read")
        compare(ctx, d, flat(snap.snap(g)), f"labels:{cls}", "write and read")
        return g
    if op == "mode":
        if uvf.mode == "flag":
            inplace(uvf.to_metric, lambda: {k: (float(v), 1.0) for k, v in d.items()}, "to_metric")
        else:
            t = rng.choice([0.5, 3.0, 100.0])
            inplace(lambda: uvf.to_flag(threshold=t), lambda: {k: v[0] >= t for k, v in d.items()}, f"to_flag({t})")
        return uvf
    if op == "collapse":
        if uvf.Npols == 1:
            return uvf
        m = rng.choice(["or", "and"]) if uvf.mode == "flag" else "mean"
        lab = ",".join(map(str, s["polarization_array"]))
        inplace(lambda: uvf.collapse_pol(method=m), lambda: reduce_(d, lambda k: (k[0], k[1], lab), m, "sum"), f"collapse_pol({m})")
        return uvf
    if op == "towf":
        m = rng.choice(["or", "and"]) if uvf.mode == "flag" else "mean"
        uvf_type = uvf.type
        sq = uvf.mode == "metric" and rng.random() < 0.6
        inplace(lambda: uvf.to_waterfall(method=m, keep_pol=True, return_weights_square=sq), lambda: reduce_(d, lambda k: ((k[0][-1],), k[1], k[2]), m, "squares" if sq and uvf_type == "baseline" else None), f"to_waterfall({m})")
        return uvf
    if op == "toant":
        if cal is None:
            return uvf
        tgt = shuffle_obj(rng, "uvc", cal, ["Nants_data"])
        if rng.random() < 0.4:
            tgt = UVFlag(tgt, mode="flag")
        kw = {"force_pol": rng.random() < 0.6}
        ants = tgt.ant_array.tolist()
        pols = (tgt.polarization_array if hasattr(tgt, "polarization_array") else tgt.jones_array).tolist()

        def want():
            one = [str(p) for p in s["polarization_array"].tolist()]
            return {((a, r[0]), f, str(p)): first(d[(r, f, str(p) if str(p) in one else one[0])]) for (r, f, _) in d for a in ants for p in pols}

        inplace(lambda: uvf.to_antenna(tgt, **kw), want, f"to_antenna({kw})")
        return uvf
    tgt = shuffle_obj(rng, "uvd", base, ["Nblts"], 0.7)
    if rng.random() < 0.4:
        tgt = c17.take(tgt, sel.forms(tgt), "Nblts", rng.sample(range(tgt.Nblts), rng.randint(1, tgt.Nblts)))
    if op == "tobl":
        if rng.random() < 0.4:
            tgt = UVFlag(tgt, mode="flag")
        kw = {"force_pol": rng.random() < 0.6}
        t = snap.snap(tgt)
        inplace(lambda: uvf.to_baseline(tgt, **kw), lambda: to_bl(s, d, t), f"to_baseline({kw})")
        return uvf
    apply_(ctx, rng, uvf, tgt, s, d, st, cls)
    return uvf


def reduce_(d, key, m, sq=None):
    gs = {}
    for k, v in d.items():
        gs.setdefault(key(k), []).append(v)
    if m == "or":
        return {k: any(v) for k, v in gs.items()}
    if m == "and":
        return {k: all(v) for k, v in gs.items()}
    out = {}
    for k, v in gs.items():
        w = sum(x[1] for x in v)
        out[k] = (sum(x[0] * x[1] for x in v) / w if w else 0.0, w)
        if sq == "squares":
            out[k] += (sum(x[1] ** 2 for x in v),)
        elif sq == "sum" and len(v[0]) > 2:
            out[k] += (sum(x[2] for x in v),)
    return out


def apply_(ctx, rng, uvf, tgt, s, d, st, cls):
    from pyuvdata import utils

    tgt = shuffle_obj(rng, "uvd", tgt, ["Npols", "Nfreqs"], 0.4) if tgt.flex_spw_polarization_array is None else tgt
    kw = {"unflag_first": rng.random() < 0.3, "flag_missing": rng.random() < 0.6, "force_pol": rng.random() < 0.6}
    what = f"apply_uvflag({kw}) of type {uvf.type}"
    t = snap.snap(tgt)
    pols, one = [str(p) for p in t["polarization_array"].tolist()], [str(p) for p in s["polarization_array"].tolist()]
    trows = list(zip(t["ant_1_array"].tolist(), t["ant_2_array"].tolist(), t["time_array"].tolist()))
    ft, tt = set(s["time_array"].tolist()), set(t["time_array"].tolist())
    refuse = s["mode"] != "flag" or not (len(ft) == 1 or ft == tt)
    if s["type"] != "baseline":
        dd, frows, nt, nf = {}, set(trows), len(tt), len(freqs(s))
        if not refuse and (set(pols) == set(one) or len(one) == 1):
            s1, d1 = s, d
            if len(ft) == 1:
                # one time stands for all
                s1 = {**s, "time_array": t["time_array"]}
                d1 = {(k[0][:-1] + (x,),) + k[1:]: v for k, v in d.items() for x in tt}
            dd = to_bl(s1, d1, t)
    else:
        dd, frows, nt, nf = d, set(rows(s)), len(ft), len(freqs(s))
    pairs = {r[:2] for r in frows}
    old = {(r, f, p): bool(t["flag_array"][i, j, k]) for i, r in enumerate(trows) for j, f in enumerate(freqs(t)) for k, p in enumerate(pols)}
    fone = freqs(s)[0]
    want, impossible = {}, refuse
    byp = {r[:2]: r for r in frows}
    dkeys = [str(p) for p in (t["polarization_array"] if s["type"] != "baseline" else s["polarization_array"]).tolist()]
    if not impossible:
        for (r, f, p), v in old.items():
            v = False if kw["unflag_first"] else v
            if r[:2] not in pairs:
                want[(r, f, p)] = v or kw["flag_missing"]
                continue
            rr = r if r in frows else (byp[r[:2]] if nt == 1 else None)
            ff = f if nf > 1 else fone
            pp = p if p in dkeys else dkeys[0]
            if rr is None or (rr, ff, pp) not in dd:
                impossible = True
                break
            want[(r, f, p)] = v or dd[(rr, ff, pp)]
    u = tgt.copy()
    if "at" in st and not kw["unflag_first"] and not impossible:
        # interrupted in the middle, then done again: the same flags, and never a flag that neither object has
        with interrupt.Lines() as ln:
            _, exc = ctx.attempt(lambda: utils.apply_uvflag(tgt.copy(), uvf, **kw))
        pt = ln.pick(*st["at"])
        if exc is None and pt is not None:
            with interrupt.Lines(pt, st["kind"]) as l2:
                _quiet(lambda: utils.apply_uvflag(u, uvf, **kw))
            ctx.stats["sim_steps"] += l2.n
            if l2.fired:
                ctx.stats[f"fault:{st['kind']}"] += 1
            now = {(r, f, p): bool(u.flag_array[i, j, k]) for i, r in enumerate(trows) for j, f in enumerate(freqs(t)) for k, p in enumerate(pols)}
            bad = [k for k in now if (now[k] and not want[k]) or (old[k] and not now[k])]
            ctx.check(not bad, f"interrupted:{cls}", lambda: f"{what}, interrupted in {l2.where}: flag at {bad[0]} is {now[bad[0]]}")
    _, exc = ctx.attempt(lambda: utils.apply_uvflag(u, uvf, **kw))
    ctx.same(snap.diff(s, snap.snap(uvf)), f"changed:{cls}", "apply_uvflag changed the flag object")
    if exc is not None:
        ctx.check(isinstance(exc, REFUSED), f"raises:{cls}", lambda: f"{what} raised {type(exc).__name__}: {str(exc)[:200]}")
        ctx.stats["refused"] += 1
        ctx.mix(str(exc)[:30])
        ctx.same(snap.diff(t["flag_array"], u.flag_array.copy()), f"refused:{cls}", f"{what} was refused ({str(exc)[:60]}) but changed the flags")
        return
    ctx.check(not impossible, f"accepted:{cls}", lambda: f"{what} was accepted although the flag object has no flags for some of the data")
    if impossible:
        return
    g = snap.snap(u)
    now = {(r, f, p): bool(g["flag_array"][i, j, k]) for i, r in enumerate(trows) for j, f in enumerate(freqs(t)) for k, p in enumerate(pols)}
    compare(ctx, want, now, f"labels:{cls}", what)
    ctx.stats["applied"] += 1
    for n in ("flag_array", "history"):
        t.pop(n), g.pop(n)
    ctx.same(snap.diff(t, g), f"other:{cls}", "apply_uvflag changed more than the flags")


def _quiet(fn):
    try:
        fn()
    except (interrupt.SimInterrupt, interrupt.SimMemoryError):
        pass
    except Exception:  # noqa: BLE001
        pass
