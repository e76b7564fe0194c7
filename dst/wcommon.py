"""Shared pieces of the checks on writing files."""
import os

from . import disk, engine, fmts, snap

NEVER_ACK = object()


def fds(prefix):
    """Open descriptors of this process below a directory."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if p.startswith(prefix):
            out.append(p)
    return sorted(out)


def dry(ctx, fmt, make, kw, sub="dry"):
    """Fault-free write and read: the fidelity oracle. Returns (snapshot, op counts)."""
    obj = make()
    d = ctx.path(sub)
    os.makedirs(d)
    p = os.path.join(d, "out." + fmt.ext())
    want = fmt.expect(obj, kw)
    dk = disk.Disk(ctx, d)
    dk.start()
    ctx.must(lambda: fmt.write(obj, p, **kw), f"write-raises:{fmt.name}", "fault-free write")
    base = dk.counts()
    dk.stop()
    back = ctx.must(lambda: fmt.read(p), f"read-raises:{fmt.name}", "reading back a fault-free write")
    got = snap.snap(back)
    ctx.mix(snap.digest(got))
    ctx.same(fmt.compare(want, got), f"fidelity:{fmt.name}", "what is read differs from what was written")
    more(ctx, fmt, p, want, kw, "fidelity")
    ctx.stats["fault_free_roundtrips"] += 1
    fmts.remove(p)
    return want, base


def more(ctx, fmt, p, want, kw, cls):
    for label, exp, rkw in fmt.more(want, kw):
        back = ctx.must(lambda: fmt.read(p, **rkw), f"read-raises:{fmt.name}", f"reading {label}")
        got = snap.snap(back)
        exp["vis_units"] = got["vis_units"]  # kept for the main column only
        ctx.same(fmt.compare(exp, got), f"{cls}:{fmt.name}:{label}", f"{label} differs from what was written")


def faulty_write(ctx, fmt, obj, p, kw, specs, base):
    """Write under faults. Returns (exception or None, fired)."""
    dk = disk.Disk(ctx, os.path.dirname(p))
    with disk.Unraisable() as un:
        dk.start(specs, base)
        try:
            _, exc = ctx.attempt(lambda: fmt.write(obj, p, **kw))
        finally:
            fired = dk.stop()
    return exc, fired, un.h5py()


def durable_run(sc, ctx, fmt, make, kw):
    """Acknowledged => readable and equal; otherwise reported."""
    want, base = dry(ctx, fmt, make, kw)
    if not sc["faults"] and not sc["hard_exit"]:
        return
    d = ctx.path("f")
    os.makedirs(d)
    p = os.path.join(d, "out." + fmt.ext())

    def step():
        exc, fired, swallowed = faulty_write(ctx, fmt, make(), p, kw, sc["faults"], base)
        if any(fired):
            ctx.stats["runs_with_fault"] += 1
        return None if exc is None else f"{type(exc).__name__}", swallowed

    oneshot = fmt.h5 and any(f["kind"] == "err" and not f["persist"] for f in sc["faults"])
    if fmt.abortive or oneshot or sc["hard_exit"]:
        kind, val = ctx.in_child(step)
        if sc["hard_exit"]:
            ctx.stats["crash_after_ack"] += 1
    else:
        kind, val = "ok", step()
    if kind == "died" and oneshot and val == -11:
        ctx.known.append("hdf5-crash-after-one-shot-write-error")
        return
    ctx.check(kind == "ok" or fmt.abortive, f"process-died:{fmt.name}", lambda: f"the write ended the process ({kind} {val})")
    acked = kind == "ok" and val[0] is None
    ctx.mix(kind, val)
    ctx.stats["acknowledged" if acked else "reported_failure"] += 1
    if acked:
        try:
            back = ctx.must(lambda: fmt.read(p), f"acked-unreadable:{fmt.name}", "reading a file whose write was acknowledged")
            ctx.same(fmt.compare(want, snap.snap(back)), f"silent-loss:{fmt.name}", "the write was acknowledged but the file differs")
            more(ctx, fmt, p, want, kw, "silent-loss")
        except engine.Violation:
            if not (fmt.h5 and val[1]):
                raise
            ctx.known.append("h5py-swallows-dealloc-error")
