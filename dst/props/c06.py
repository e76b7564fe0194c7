"""C06: what is already on disk is replaced only on request, and then completely."""
import hashlib
import os
import pathlib

from .. import fmts, interrupt, snap

RUNS = {"quick": 2800, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata", "h5py/HDF5", "astropy.io.fits", "Miriad C library", "casacore", "kernel tmpfs"]
STUB = ["the instant of an interrupt (line-event seam)"]
FILES = ["uvh5", "uvfits", "calh5", "calfits", "beamfits", "uvflag"]
DIRS = ["miriad", "ms", "mscal"]
DEFAULTS = {"cfg": fmts.default_cfg("uvh5"), "uvd": fmts.default_cfg("uvh5"), "uvc": fmts.default_cfg("calh5")}


def tree(p):
    """Fingerprint of a path: kind, names, bytes."""
    if os.path.islink(p):
        return ("link", os.readlink(p), tree(os.path.realpath(p)))
    if not os.path.exists(p):
        return None
    if os.path.isfile(p):
        with open(p, "rb") as f:
            return ("file", hashlib.sha256(f.read()).hexdigest())
    return ("dir", tuple((n, tree(os.path.join(p, n))) for n in sorted(os.listdir(p)) if n != "table.lock"))


def _obj(rng, f):
    fmt = fmts.ALL[f]
    kw = fmt.gen_kw(rng)
    cfg = fmts.generator(f)(rng)
    fmt.adjust(cfg, kw)
    return {"fmt": f, "cfg": cfg, "kw": kw}


def gen(rng, i, tier):
    pool = FILES if rng.random() < 0.7 else DIRS
    pool = rng.sample(pool, rng.randint(1, 2))
    ops = []
    for k in range(rng.randint(2, 5)):
        r = rng.random()
        slot = rng.choice([0, 0, 0, 1])
        base = {"slot": slot, "spell": rng.choice(["abs", "abs", "rel", "dot", "path"])}
        if k == 0 and r < 0.8:
            ops.append({"op": "write", "clobber": rng.random() < 0.3, **_obj(rng, rng.choice(pool)), **base})
        elif r < 0.45:
            ops.append({"op": "write", "clobber": rng.random() < 0.55, **_obj(rng, rng.choice(pool)), **base})
        elif r < 0.60:
            ops.append({"op": "bad", "kind": rng.choice(["check", "unsupported", "option"]), "clobber": rng.random() < 0.8,
                        **_obj(rng, rng.choice(pool)), **base})
        elif r < 0.78:
            ops.append({"op": "interrupt", "at": interrupt.gen_point(rng), "what": rng.choice(["interrupt", "memory"]), **_obj(rng, rng.choice(pool)), **base})
        elif r < 0.88:
            ops.append({"op": "rewrite", **base})
        elif r < 0.93:
            ops.append({"op": "init", "clobber": rng.random() < 0.4, **_obj(rng, "uvh5"), **base})
        else:
            ops.append({"op": "put", "what": rng.choice(["garbage", "empty", "dir", "emptydir", "link"]), **base})
    return {"ops": ops}


def make_bad(obj, fmt, kind, kw):
    """An object (or option) the writer has to refuse. Returns False if there is none."""
    if fmt.name == "mscal":
        if kind == "unsupported":
            obj.gain_convention = "multiply"
        return kind == "unsupported"
    if kind == "check":
        if fmt.name == "uvflag":
            return False
        kw.pop("run_check", None)
        if hasattr(obj, "freq_array") and obj.freq_array is not None and obj.freq_array.ndim == 1 and fmt.name != "calfits":
            obj.Nfreqs = obj.Nfreqs + 1
        else:
            obj.history = None
        return True
    if kind == "option":
        if fmt.name == "uvh5":
            kw["data_write_dtype"] = "bad"
            return True
        if fmt.name in ("calh5", "uvflag"):
            return False
        return False
    if fmt.name == "beamfits" and obj.antenna_type == "phased_array":
        return True  # (a kind of beam that the format cannot hold)
    if fmt.name in ("uvfits", "calfits", "beamfits"):
        obj.extra_keywords = {**obj.extra_keywords, "weird": {"a": 1}}
        return True
    return False


def run(sc, ctx):
    d = ctx.path("w")
    os.makedirs(d)
    os.chdir(d)
    real = [os.path.join(d, "data 0.x"), os.path.join(d, "b1")]
    model = [None, None]  # None, "foreign" or (fmt, want)

    def spell(op):
        p = real[op["slot"]]
        s = op["spell"]
        if s == "rel":
            return os.path.basename(p)
        if s == "dot":
            return os.path.join(d, ".", os.path.basename(p))
        if s == "path" and op.get("fmt") in ("uvh5", "calh5", "calfits", "beamfits", "uvfits"):
            return pathlib.Path(p)
        return p

    def verify(slot, what):
        fmt, want = model[slot]
        back = ctx.must(lambda: fmt.read(real[slot]), f"unreadable:{fmt.name}", f"reading the file after {what}")
        ctx.same(fmt.compare(want, snap.snap(back)), f"wrong-content:{fmt.name}", f"the file after {what} differs from what was written last")

    for n, op in enumerate(sc["ops"]):
        s = op["slot"]
        before = [tree(p) for p in real]
        names = sorted(os.listdir(d))
        tag = op["op"]
        ctx.stats[f"op:{tag}"] += 1
        refused = False
        if tag == "put":
            fmts.remove(real[s])
            if op["what"] in ("garbage", "empty"):
                with open(real[s], "wb") as f:
                    f.write(b"precious notes\n" * 40 if op["what"] == "garbage" else b"")
            elif op["what"] == "link":
                t = ctx.path(f"target{n}")
                with open(t, "wb") as f:
                    f.write(b"precious notes\n")
                os.symlink(t, real[s])
            else:
                os.makedirs(real[s])
                if op["what"] == "dir":
                    with open(os.path.join(real[s], "notes.txt"), "w") as f:
                        f.write("precious")
            model[s] = "foreign"
            continue
        if tag == "rewrite":
            if not isinstance(model[s], tuple):
                continue
            fmt, want = model[s]
            obj = ctx.must(lambda: fmt.read(real[s]), f"unreadable:{fmt.name}", "reading")
            want2 = fmt.expect(obj, {})
            kw = {} if fmt.name == "uvfits" else {"clobber": True}
            if fmt.name == "beamfits":
                kw["check_auto_power"] = False
            ctx.must(lambda: fmt.write(obj, real[s], **kw), f"rewrite-raises:{fmt.name}", "writing an object over the file it was read from")
            model[s] = (fmt, want2)
            verify(s, "writing it over itself")
        elif tag == "init":
            obj = fmts.maker("uvh5")(op["cfg"])
            exists = before[s] is not None
            _, exc = ctx.attempt(lambda: obj.initialize_uvh5_file(spell(op), clobber=op["clobber"]))
            if exists and not op["clobber"]:
                ctx.check(exc is not None, "no-refusal:uvh5-init", "an existing file was initialised again without clobber")
                refused = True
            else:
                model[s] = "foreign" if exc is None else ("foreign" if tree(real[s]) is not None else None)
                if not exists:
                    ctx.check(exc is None, "init-raises", lambda: repr(exc))
        else:
            fmt = fmts.ALL[op["fmt"]]
            cfg = op["cfg"]
            if tag == "bad" and fmt.name == "beamfits" and op["kind"] == "unsupported" and cfg["dseed"] % 2:
                cfg = {**cfg, "phased": True}
            obj = fmts.maker(op["fmt"])(cfg)
            kw = dict(op["kw"])
            exists = before[s] is not None
            if fmt.name in ("calfits", "beamfits") and os.path.isfile(real[s]) and os.path.getsize(real[s]) == 0:
                exists = False  # an empty file has nothing to lose: filled by the FITS library
            if tag == "bad" and not make_bad(obj, fmt, op["kind"], kw):
                ctx.stats["op:bad-na"] += 1
                continue
            clob = op.get("clobber", False)
            if fmt.name != "uvfits":
                kw["clobber"] = clob
            else:
                clob = True
            want = fmt.expect(obj, kw) if tag != "bad" else None
            if tag == "interrupt":
                if fmt.name == "uvfits":
                    continue
                kw["clobber"] = False
                if not exists:
                    continue
                # where an uninterrupted refusal goes
                with interrupt.Lines() as ln:
                    _, exc = ctx.attempt(lambda: fmt.write(obj, spell(op), **kw))
                ctx.check(exc is not None, f"no-refusal:{fmt.name}", "an existing file was written without clobber")
                tgt = ln.pick(*op["at"])
                exc = None
                with interrupt.Lines(tgt, op["what"]) as ln2:
                    try:
                        fmt.write(obj, spell(op), **kw)
                    except BaseException as e:  # noqa: BLE001
                        exc = e
                ctx.stats["sim_steps"] += ln2.n
                ctx.check(exc is not None, f"no-refusal:{fmt.name}", "an existing file was written without clobber")
                if ln2.fired:
                    ctx.stats[f"fault:{op['what']}"] += 1
                exc = None
                refused = True
            else:
                _, exc = ctx.attempt(lambda: fmt.write(obj, spell(op), **kw))
                ctx.mix(tag, type(exc).__name__, exists, clob)
                if exists and not clob:
                    ctx.check(exc is not None, f"no-refusal:{fmt.name}", "an existing file was written without clobber")
                    refused = True
                elif tag == "bad":
                    ctx.check(exc is not None, f"bad-accepted:{fmt.name}", f"an object that cannot be written ({op['kind']}) was accepted")
                    refused = True
                elif exc is None:
                    model[s] = (fmt, want)
                    verify(s, "an acknowledged write" + (" with clobber" if exists else ""))
                    ctx.stats["replaced" if exists else "created"] += 1
                else:
                    # what is in the way is of another kind: refused loudly
                    odd = before[s][0] != ("dir" if fmt.isdir else "file") or model[s] == "foreign" or model[s][0].isdir != fmt.isdir or \
                        (fmt.casa and not model[s][0].casa)
                    ctx.check(before[s] is not None and odd, f"write-raises:{fmt.name}", lambda: f"{type(exc).__name__}: {exc}")
                    ctx.stats["refused_other_kind"] += 1
                    fmts.remove(real[s])
                    model[s] = None
        after = [tree(p) for p in real]
        if refused:
            ctx.stats["refused"] += 1
            ctx.check(after[s] == before[s], f"destroyed:{op['fmt']}:{tag}",
                      lambda: f"a refused write ({tag} {op.get('kind', '')} clobber={op.get('clobber')}) changed what was there: {str(before[s])[:80]} -> {str(after[s])[:80]}")
        ctx.check(after[1 - s] == before[1 - s], "collateral", "another file changed")
        stray = sorted(set(os.listdir(d)) - set(names) - {os.path.basename(real[s])})
        ctx.check(not stray, "stray", lambda: f"files left behind: {stray}")
        ctx.mix(tag, refused, str(model[s])[:20] if not isinstance(model[s], tuple) else model[s][0].name)
    os.chdir(ctx.dir)
