"""C19: what a program computes does not depend on anything but its inputs.

The same program of operations runs twice: once in a plain process and once in
a process with another hash seed, heap contents, clock, time zone, directory,
umask, print options, random state and past. Everything observed is recorded;
the two records must agree.
"""
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import shutil
import signal
import socket
import subprocess
import sys
import time
import traceback

import numpy as np

from .. import engine, fmts, objs, samples, snap

RUNS = {"quick": 2400, "thorough": 60000}
WALL = {"quick": 10, "thorough": 1500}
LEVEL = "exploration"
REAL = ["pyuvdata (Python and compiled extensions)", "h5py/HDF5", "astropy", "Miriad C library", "casacore", "separate interpreters"]
STUB = ["the wall clock (interposed libc layer)", "astropy's site registry (fixed entry for the MWA)"]
PARTS = [("c01", 1), ("c02", 1), ("c03", 1), ("c04", 1), ("c09", 1), ("c10", 3), ("c11", 2), ("c13", 1), ("c14", 3), ("c15", 4), ("c16", 2), ("c17", 5), ("c18", 2), ("gaps", 4), ("queries", 2)]
ZYGOTES = 2
DEFAULTS = {}
_socks = []


# ------------------------------------------------------------------ scenarios
def strip(v):
    """No faults in these programs."""
    if isinstance(v, dict):
        return {k: [] if k in ("faults", "points", "runs") and isinstance(v[k], list) else {} if k == "bad" else None if k == "lastfault" else strip(x)
                for k, x in v.items() if k != "at" and not (k == "faults" and "op" in v)}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def program(rng, i, tier):
    name = rng.choices([p for p, _ in PARTS], [w for _, w in PARTS])[0]
    if name == "queries":
        return {"prop": name, "sc": {"cfg": objs.gen_uvd(rng, "uvh5"), "fmt": rng.choice(["uvh5", "uvfits", None]), "seed": rng.randrange(1 << 20)}}
    if name == "gaps":
        from . import c17

        k = rng.choice(["uvd", "uvd", "uvc", "uvc", "uvc", "uvb"])
        sc = dict(c17.gen(rng, c17.KINDS.index(k), tier))
        cfg = sc["cfg"]
        cfg.update({n: max(cfg[n], 2) for n in ("nants", "ntimes", "nfreqs") if n in cfg and not cfg.get("trange")})
        return {"prop": name, "sc": {"kind": k, "cfg": cfg, "seed": rng.randrange(1 << 20)}}
    sc = strip(importlib.import_module("dst.props." + name).gen(rng, rng.randrange(1000), tier))
    if name in ("c01", "c02", "c03", "c04"):
        sc["hard_exit"] = False
    return {"prop": name, "sc": sc}


def gen(rng, i, tier):
    env = {"clock": rng.choice([0, 86400 * 400, -86400 * 9000, 86400 * 3000]), "tz": rng.choice([None, "Pacific/Apia", "America/St_Johns"]),
           "umask": rng.choice([None, 0o077, 0]), "print": rng.random() < 0.5, "rand": rng.randrange(1 << 30) if rng.random() < 0.7 else None,
           "heap": rng.choice([0, 1, 0x5A, 0xFE, 0x81]), "cwd": rng.random() < 0.5, "gc": rng.random() < 0.3, "env": rng.random() < 0.4}
    past = []
    if rng.random() < 0.5:
        past = [None if rng.random() < 0.4 else program(rng, i, tier) for _ in range(rng.choice([1, 1, 2]))]  # (None: the same program)
    return {"what": program(rng, i, tier), "past": past, "env": env, "zygote": rng.randrange(ZYGOTES)}


def valid(sc):
    return isinstance(sc.get("what"), dict) and "prop" in sc["what"]


# ------------------------------------------------------------------ recording
TIME = re.compile(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?")


class Rec(engine.Ctx):
    """Records what the program lets one see (carried in .known, which survives in_child)."""

    def mix(self, *vals):
        if len(vals) == 1 and isinstance(vals[0], int) and not isinstance(vals[0], bool):
            return  # (the order of file operations inside libraries may follow addresses)
        if len(vals) == 1 and isinstance(vals[0], str) and re.fullmatch("[0-9a-f]{16}", vals[0]):
            return
        self.note("step", self.clean([r for r in (str(type(v)) if callable(v) else repr(v) for v in vals) if "array(" not in r]))

    def clean(self, v):
        if isinstance(v, str):
            return TIME.sub("<time>", v.replace(self.dir, "<scratch>"))
        if isinstance(v, list):
            return [self.clean(x) for x in v]
        if isinstance(v, dict):
            return {k: self.clean(x) for k, x in v.items()}
        return v

    def note(self, kind, what):
        if len(self.known) < 4000:
            self.known.append((kind, what))

    def snapped(self, out):
        out = self.clean(out)
        self.note("object", {k: hashlib.sha256(_bytes(v)).hexdigest()[:12] if not isinstance(v, (str, int, float, bool, type(None))) or len(repr(v)) > 60 else repr(v)
                             for k, v in out.items()})


def _bytes(v):
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "fc":
            v = np.where(v != v, np.nan, v) + 0.0  # (any NaN, any zero)
        return repr((v.shape, v.dtype.str)).encode() + np.ascontiguousarray(v).tobytes()
    if isinstance(v, dict):
        return b"{" + b",".join(repr(k).encode() + b":" + _bytes(x) for k, x in sorted(v.items(), key=lambda t: repr(t[0]))) + b"}"
    if isinstance(v, (list, tuple)):
        return b"[" + b",".join(_bytes(x) for x in v) + b"]"
    return repr(v).encode()


_SNAP = snap.snap


def one(prog, d, record=True):
    """Run a program below d; gives its record."""
    os.makedirs(d)
    ctx = Rec(d)
    run = {"queries": queries, "gaps": gaps}.get(prog["prop"]) or importlib.import_module("dst.props." + prog["prop"]).run

    def spy(obj, skip=()):
        out = _SNAP(obj, skip)
        ctx.snapped(out)
        return out

    snap.snap = spy
    try:
        run(prog["sc"], ctx)
        end = ("ok",)
    except engine.Violation as v:
        end = ("violation", v.cls)
    except engine.Skip:
        end = ("skip",)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if not any("/pyuvdata/" in f.filename for f in tb):
            raise
        end = ("raised", type(e).__name__, tb[-1].name)
    finally:
        snap.snap = _SNAP
    ctx.note("end", end)
    return ctx.known, ctx.evals


def queries(sc, ctx):
    """The answers to the look-ups of an object and of a lazy handle."""
    from pyuvdata.uvdata import FastUVH5Meta

    from pyuvdata import Telescope, utils
    from pyuvdata.telescopes import known_telescopes

    from . import c13, c15, c16

    held = []
    rng = random.Random(sc["seed"])
    o = objs.make_uvd(sc["cfg"])
    if sc["fmt"]:
        fmts.ALL[sc["fmt"]].write(o, ctx.path("q"))
        o = fmts.ALL[sc["fmt"]].read(ctx.path("q"))
    b = (int(o.ant_1_array[0]), int(o.ant_2_array[0]), int(o.polarization_array[0]))

    def answer(what, fn):
        v, e = ctx.attempt(fn)
        held.append(v)
        ctx.note("answer", (what, type(e).__name__ if e is not None else hashlib.sha256(_bytes(exact(v))).hexdigest()[:12]))

    for n, q in enumerate(c16.QUERIES):
        answer(f"query {n}", lambda q=q: q(o, b))
    for n in ("get_baseline_nums", "get_ants", "get_antpairs", "get_pols", "get_antpairpols", "get_feedpols"):
        answer(n, lambda n=n: getattr(o, n)())
    if sc["fmt"] == "uvh5":
        m = FastUVH5Meta(ctx.path("q"))
        for a in c13.UVH5:
            if a not in c13.METHODS:
                answer("meta." + a, lambda a=a: getattr(m, a))
        m.close()
    for n in ("get_redundancies", "get_ENU_data_ants"):
        answer(n, lambda n=n: getattr(o, n)())
    answer("known", known_telescopes)
    for n in rng.sample(["HERA", "PAPER", "SMA", "mwa", "SZA", "OVRO-LWA", "here"], 3):
        answer("telescope " + n, lambda n=n: snap.snap(Telescope.from_known_telescopes(n, run_check=False)))
        held.append(ctx.attempt(lambda n=n: Telescope.from_known_telescopes(n, run_check=False))[0])
        answer("params " + n, lambda n=n: [snap.snap(t) for t in [Telescope()] if setattr(t, "name", n) is None and t.update_params_from_known_telescopes(run_check=False) is None])
    for x in (None, "east", "north"):
        for w, fn in (("polnum2str", utils.polnum2str), ("jnum2str", utils.jnum2str)):
            v = rng.choice([[-5, -6], [-8, -7, -5], [-1, -2], [-5]])
            answer(f"{w} {v} {x}", lambda fn=fn, v=v, x=x: fn(v, x_orientation=x))
        v = rng.choice([["xx", "yy"], ["yx", "xx"], ["ee", "en"], ["rr"]])
        answer(f"polstr2num {v} {x}", lambda v=v, x=x: utils.polstr2num(v, x_orientation=x))
    held.append(o)
    for v in held:  # (answers belong to the caller)
        c15.scribble(v)


def gaps(sc, ctx):
    """The union of two objects that differ on two axes: some of it neither of them has."""
    from .. import sel
    from . import c17

    k = sc["kind"]
    o = c17.MAKE[k][1](sc["cfg"])
    rng = random.Random(sc["seed"])
    fm = sel.forms(o)
    axes = []
    for n in c17.AXES[k]:
        a, g = c17._axis(k, o, n)
        if a is not None and len(g) > 1 and a not in [x for x, _ in axes]:
            axes.append((a, g))
    rng.shuffle(axes)
    if len(axes) < 2:
        raise engine.Skip("one axis")
    ps = [o, o]
    for a, g in axes[:2]:
        c = rng.randrange(1, len(g))
        for j, part in enumerate((g[:c], g[c:])):
            if rng.random() < 0.1:
                part = g
            ps[j] = c17.take(ps[j], fm, a, sorted(i for x in part for i in x))
    rng.shuffle(ps)
    got, e = ctx.attempt(lambda: ps[0] + ps[1])
    ctx.note("step", (k, tuple(a for a, _ in axes[:2]), type(e).__name__))
    if e is None:
        snap.snap(got)


def exact(v):
    """Sets have no order, anything else has."""
    if isinstance(v, (set, frozenset)):
        return sorted(v, key=repr)
    if isinstance(v, (list, tuple)):
        return [exact(x) for x in v]
    if isinstance(v, dict) and "__class__" in v:
        return v
    return snap.norm(v)


def fill_arrays(libc, byte):
    """New arrays hold the byte until something is put into them."""
    api = ctypes.pythonapi
    libc.simio_numpy.restype = ctypes.c_void_p
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    core = importlib.import_module("numpy._core._multiarray_umath" if np.__version__[0] != "1" else "numpy.core._multiarray_umath")
    table = ctypes.cast(api.PyCapsule_GetPointer(core._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])(api.PyCapsule_New(libc.simio_numpy(byte), b"mem_handler", None))


def enter(env, d):
    """The surroundings of the second execution."""
    libc = ctypes.CDLL(None)
    if env["heap"]:
        libc.mallopt(-3, 32 << 20)  # (big arrays from the heap, too)
        libc.mallopt(-6, env["heap"])  # (M_PERTURB)
        fill_arrays(libc, env["heap"] ^ 0xFF)
    libc.simio_clock(ctypes.c_long(env["clock"]))
    if env["tz"]:
        os.environ["TZ"] = env["tz"]
        time.tzset()
    if env["umask"] is not None:
        os.umask(env["umask"])
    if env["print"]:
        np.set_printoptions(precision=2, threshold=3, suppress=True, linewidth=40)
    if env["rand"] is not None:
        np.random.seed(env["rand"])
        random.seed(env["rand"])
    if env["cwd"]:
        os.makedirs(os.path.join(d, "elsewhere"))
        os.chdir(os.path.join(d, "elsewhere"))
    if env["gc"]:
        import gc

        gc.set_threshold(50, 2, 2)
    if env["env"]:
        os.environ.update(HOME="/nonexistent", USER="nobody", LOGNAME="nobody", COLUMNS="20", LINES="5", LANG="C")


def plain(prog, d):
    np.random.seed(7)
    random.seed(7)
    os.umask(0o022)
    return one(prog, os.path.join(d, "w"))


def changed(req):
    d = req["dir"]
    os.chdir(d)
    enter(req["env"], d)
    for n, p in enumerate(req["past"]):
        one(p or req["what"], os.path.join(d, f"past{n}"))
    return one(req["what"], os.path.join(d, "w"))


def child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("error", "".join(traceback.format_exception(e))[-2000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data = engine._drain(r, 120, pid)
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", os.waitstatus_to_exitcode(st))


def run(sc, ctx):
    samples.sites()
    what = sc["what"]
    d1, d2 = ctx.path("a"), ctx.path("b")  # (of equal length)
    os.makedirs(d1)
    os.makedirs(d2)
    k1, r1 = child(lambda: plain(what, d1))
    shutil.rmtree(d1, ignore_errors=True)
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(150)
    s.connect(_socks[sc["zygote"] % len(_socks)])
    s.sendall(json.dumps({"what": what, "past": sc["past"], "env": sc["env"], "dir": d2}).encode())
    s.shutdown(socket.SHUT_WR)
    buf = []
    while b := s.recv(1 << 16):
        buf.append(b)
    s.close()
    if not buf:
        raise RuntimeError("no answer from the other interpreter")
    k2, r2 = pickle.loads(b"".join(buf))
    for k, r in ((k1, r1), (k2, r2)):
        if k == "error":
            raise RuntimeError(r)
    ctx.check(k1 == k2, "differs:end", lambda: f"{what['prop']}: {k1} {r1 if k1 != 'ok' else ''} in one process, {k2} {r2 if k2 != 'ok' else ''} in the other")
    if k1 == "died":
        raise engine.Skip("both died")
    (a, ea), (b, eb) = r1, r2
    ctx.stats[f"program:{what['prop']}"] += 1
    ctx.stats["observations"] += len(a)
    for k, v in sc["env"].items():
        if v:
            ctx.stats[f"fault:env-{k}"] += 1
    if sc["past"]:
        ctx.stats["fault:env-past"] += 1
    ctx.stats["fault:env-hashseed"] += 1
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            ctx.fail(f"differs:{x[0]}", f"{what['prop']}, observation {n} of {len(a)}: {difference(x, y)}")
    ctx.check(len(a) == len(b), "differs:length", lambda: f"{what['prop']}: {len(a)} observations in one process, {len(b)} in the other")
    ctx.evals += len(a)
    ctx.mix(hashlib.sha256(repr([x for x in a if x[0] != "end"]).encode()).hexdigest())


def difference(x, y):
    if x[0] == y[0] == "object":
        ks = [k for k in sorted(set(x[1]) | set(y[1])) if x[1].get(k) != y[1].get(k)]
        return f"{x[1].get('__class__')} differs in " + "; ".join(f"{k}: {x[1].get(k)} / {y[1].get(k)}" for k in ks[:6])
    return f"{str(x)[:500]} / {str(y)[:500]}"


# ------------------------------------------------------- the other interpreters
def zygote(path):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with its parent
    import dst.props.c19 as me  # (the instance that the other modules see)

    mods(me)
    lst = socket.socket(socket.AF_UNIX)
    lst.bind(path + ".new")
    lst.listen(64)
    os.rename(path + ".new", path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = lst.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            lst.close()
            try:
                buf = []
                while b := c.recv(1 << 16):
                    buf.append(b)
                req = json.loads(b"".join(buf))
                c.sendall(pickle.dumps(me.child(lambda: me.changed(req))))
            finally:
                os._exit(0)
        c.close()


def mods(me):
    engine.warm(me)


def warm(d):
    from . import c16

    c16.warm(d)
    for p, _ in PARTS[:-2]:
        m = importlib.import_module("dst.props." + p)
        m.ID = p.upper()
        if p != "c16" and hasattr(m, "warm"):
            m.warm(os.path.join(d, p))


def start(mod):
    """Starts the other interpreters (called before the workers exist)."""
    d = os.getcwd()  # (removed by the script that started this)
    for k in range(ZYGOTES):
        p = os.path.join(d, f"zygote{k}")
        e = dict(os.environ, PYTHONHASHSEED=str(4241 + 17 * k))
        null = open(os.devnull, "w")
        subprocess.Popen([sys.executable, "-m", "dst", "zygote", p], env=e, stdin=subprocess.DEVNULL, stdout=None if os.environ.get("VERIF_DEBUG") else null,
                         stderr=None if os.environ.get("VERIF_DEBUG") else null)
        _socks.append(p)
    end = time.monotonic() + 120
    while not all(os.path.exists(p) for p in _socks):
        if time.monotonic() > end:
            raise SystemExit("the other interpreters do not start")
        time.sleep(0.1)
