"""Python side of the simulated disk (shim/simio.c)."""
import ctypes
import errno
import os
import sys

OPEN_R, OPEN_W, READ, WRITE, SYNC, TRUNC, CLOSE_W, META, MMAP = (1 << i for i in range(9))
MASKS = {"OPEN_R": OPEN_R, "OPEN_W": OPEN_W, "READ": READ, "WRITE": WRITE, "TRUNC": TRUNC, "META": META,
         "MMAP": MMAP, "ANYW": OPEN_W | WRITE | TRUNC | META, "ANYR": OPEN_R | READ, "DATA": READ | WRITE}
KINDS = {"err": 0, "short": 1, "crash": 2}

_lib = None


def lib():
    global _lib
    if _lib is None:
        lb = ctypes.CDLL(None)
        try:
            lb.simio_digest.restype = ctypes.c_ulonglong
        except AttributeError:
            raise RuntimeError("simulated disk (LD_PRELOAD shim) is not loaded")
        for n in ("simio_fired", "simio_count", "simio_mutations"):
            getattr(lb, n).restype = ctypes.c_long
        lb.simio_add.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        _lib = lb
    return _lib


class Disk:
    """Counts and faults the file operations below one directory."""

    def __init__(self, ctx, prefix):
        self.ctx, self.prefix, self.specs = ctx, prefix, []

    def start(self, specs=(), base=None):
        """Arm; base maps a mask name to the operation count of a fault-free dry run."""
        lb = lib()
        lb.simio_arm(os.fsencode(self.prefix))
        self.specs = list(specs)
        for s in self.specs:
            n = (base or {}).get(s["mask"], 0)
            nth = min(int(s["frac"] * n), max(n - 1, 0)) if "frac" in s else s["nth"]
            e = getattr(errno, s.get("err", "EIO"))
            lb.simio_add(MASKS[s["mask"]], nth, KINDS[s["kind"]], e, s.get("arg", 0), int(s.get("persist", False)))

    def counts(self):
        lb = lib()
        return {k: int(lb.simio_count(m)) for k, m in MASKS.items()}

    def stop(self):
        """Disarm; returns how often each fault fired."""
        lb = lib()
        lb.simio_disarm()
        fired = [int(lb.simio_fired(i)) for i in range(len(self.specs))]
        self.ctx.mix(int(lb.simio_digest()))
        self.ctx.stats["sim_io_ops"] += int(lb.simio_count(511))
        for s, f in zip(self.specs, fired):
            if f:
                self.ctx.stats[f"fault:{name(s)}"] += f
        lb.simio_clear_faults()
        self.specs = []
        return fired


def name(s):
    k = s["kind"]
    if k == "err":
        return f"{s['mask'].lower()}-{s.get('err', 'EIO')}" + ("-persistent" if s.get("persist") else "")
    return f"{s['mask'].lower()}-{k}"


class Unraisable:
    """Records exceptions that the interpreter could only print."""

    def __enter__(self):
        self.seen = []
        self.old = sys.unraisablehook
        sys.unraisablehook = lambda a: self.seen.append(f"{a.object!r} {type(a.exc_value).__name__}")
        return self

    def __exit__(self, *a):
        sys.unraisablehook = self.old

    def h5py(self):
        return any("h5py" in s for s in self.seen)


def gen_write_fault(rng, fmt=None, short=True):
    r = rng.random()
    if fmt is not None and fmt.h5 and rng.random() < 0.85:
        # a failed device: h5py drops one-shot errors (known finding), so these
        # are kept few
        return {"frac": round(rng.random(), 4), "arg": rng.randrange(1 << 20), "mask": rng.choice(["WRITE", "WRITE", "ANYW"]), "kind": "err",
                "err": rng.choice(["ENOSPC", "EDQUOT", "EFBIG", "EIO"]), "persist": True} if r < 0.75 else {
                "frac": round(rng.random(), 4), "arg": rng.randrange(1 << 20), "mask": "WRITE", "kind": "short", "persist": rng.random() < 0.5}
    f = {"frac": round(rng.random(), 4), "arg": rng.randrange(1 << 20)}
    if r < 0.35:
        return {**f, "mask": "WRITE", "kind": "err", "err": rng.choice(["ENOSPC", "EDQUOT", "EFBIG"]), "persist": True}
    if r < 0.6:
        return {**f, "mask": "WRITE", "kind": "err", "err": rng.choice(["EIO", "ENOSPC"]), "persist": False}
    if r < 0.75 and short:
        return {**f, "mask": "WRITE", "kind": "short", "persist": rng.random() < 0.5}
    if r < 0.85:
        return {**f, "mask": "ANYW", "kind": "err", "err": rng.choice(["EIO", "ENOSPC"]), "persist": rng.random() < 0.5}
    if r < 0.93:
        return {**f, "mask": "OPEN_W", "kind": "err", "err": rng.choice(["EMFILE", "EACCES", "ENOSPC", "EROFS"]), "persist": rng.random() < 0.3}
    return {**f, "mask": "META", "kind": "err", "err": rng.choice(["EACCES", "ENOSPC", "EIO"]), "persist": rng.random() < 0.3}


def gen_read_fault(rng, short=True):
    r = rng.random()
    f = {"frac": round(rng.random(), 4), "arg": rng.randrange(1 << 20)}
    if r < 0.45:
        return {**f, "mask": "READ", "kind": "err", "err": "EIO", "persist": rng.random() < 0.5}
    if r < 0.8 and short:
        return {**f, "mask": "READ", "kind": "short", "persist": rng.random() < 0.5}
    return {**f, "mask": "OPEN_R", "kind": "err", "err": rng.choice(["EMFILE", "EACCES", "ENFILE", "EIO"]), "persist": rng.random() < 0.3}
