"""The simulation engine: seeded runs, forked execution, minimisation, evidence.

One integer (VERIF_SEED) decides everything: the seed of run i of property P
is derived from (VERIF_SEED, P, i); the scenario is a pure function of it; the
execution is a pure function of the scenario and the code under test.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Skip(Exception):
    """The scenario is outside the domain (counted, not a verdict)."""


class Ctx:
    def __init__(self, scratch):
        self.dir = scratch
        self.stats = collections.Counter()
        self.evals = 0
        self._h = hashlib.sha256()
        self.known = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def mix(self, *vals):
        for v in vals:
            self._h.update(repr(v).encode())

    def digest(self):
        return self._h.hexdigest()[:16]

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        self.evals += 1
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def same(self, diffs, cls, what):
        self.evals += 1
        if diffs:
            raise Violation(cls, f"{what}: " + "; ".join(diffs[:4]))

    def must(self, fn, cls, what):
        """A step that has to succeed."""
        try:
            return fn()
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            if os.environ.get("VERIF_TB"):  # (development aid)
                with open(os.environ["VERIF_TB"], "a") as f:
                    traceback.print_exception(e, file=f)
            raise Violation(cls, f"{what} raised {type(e).__name__}: {str(e)[:300]} at "
                            f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}") from e

    def attempt(self, fn):
        """A step that may fail; returns (result, exception)."""
        try:
            return fn(), None
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            return None, e

    def in_child(self, fn, timeout=60):
        """Run fn in a forked process that ends without any cleanup.

        Returns (kind, value): ("ok", result), ("exc", text), ("died", status).
        """
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    out = ("ok", fn())
                except Violation as v:
                    out = ("violation", (v.cls, v.msg))
                except BaseException as e:  # noqa: BLE001
                    out = ("exc", f"{type(e).__name__}: {str(e)[:300]}")
                with os.fdopen(w, "wb") as f:
                    pickle.dump((out, dict(self.stats), self.evals, self.digest(), self.known), f)
            except BaseException:  # noqa: BLE001
                code = 98
            os._exit(code)
        os.close(w)
        data = _drain(r, timeout, pid)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and data:
            out, stats, evals, dg, self.known = pickle.loads(data)
            self.stats = collections.Counter(stats)
            self.evals = evals
            self.mix(dg)
            if out[0] == "violation":
                raise Violation(*out[1])
            return out
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        self.mix("died", code)
        return ("died", code)


def _drain(fd, timeout, pid):
    """Read to EOF; kills pid on timeout and returns None."""
    buf = []
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.close(fd)
            return None
        rl, _, _ = select.select([fd], [], [], left)
        if rl:
            b = os.read(fd, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(fd)
    return b"".join(buf)


def prop_module(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def run_seed(base, pid, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{pid}/{i}".encode()).digest()[:6], "big")


def make_scenario(mod, base, i, tier):
    s = run_seed(base, mod.ID, i)
    rng = random.Random(s)
    sc = mod.gen(rng, i, tier)
    sc["_seed"] = s
    return json.loads(json.dumps(sc))


def _scratch():
    d = f"/dev/shm/vd{os.getpid():010d}"
    try:
        os.makedirs(d)
    except OSError:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


def execute(mod, sc, timeout=90):
    """Run one scenario in a forked child. Returns a result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = {"status": "error", "msg": "?"}
        try:
            os.close(r)
            os.setpgid(0, 0)
            devnull = os.open("/dev/null", os.O_RDWR)
            os.dup2(devnull, 0)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            d = _scratch()
            os.chdir(d)
            import warnings

            import numpy as np

            warnings.simplefilter("ignore")
            np.random.seed(sc.get("_seed", 0) % (1 << 32))
            random.seed(sc.get("_seed", 0))
            ctx = Ctx(d)
            try:
                mod.run(sc, ctx)
                res = {"status": "ok"}
            except Violation as v:
                res = {"status": "violation", "cls": v.cls, "msg": v.msg[:2000].replace(d, "<scratch>")}
            except Skip as e:
                res = {"status": "skip", "msg": str(e)}
            except BaseException as e:  # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = any("/pyuvdata/" in f.filename for f in tb)
                txt = "".join(traceback.format_exception(e))[-3000:].replace(d, "<scratch>")
                if inrepo:
                    res = {"status": "violation", "cls": f"unexpected-{type(e).__name__}", "msg": txt[-1500:]}
                else:
                    res = {"status": "error", "msg": txt}
            res.update(stats=dict(ctx.stats), evals=ctx.evals, digest=ctx.digest(), known=ctx.known)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        except BaseException:  # noqa: BLE001
            os._exit(97)
        os._exit(0)
    os.close(w)
    data = _drain(r, timeout, pid)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(f"/dev/shm/vd{pid:010d}", ignore_errors=True)
    if data is None:
        return {"status": "timeout", "cls": "hang", "msg": f"no end within {timeout} s", "stats": {}, "evals": 0, "digest": "hang", "known": []}
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and data:
        return pickle.loads(data)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    if code == 97 or code == -signal.SIGKILL:
        return {"status": "error", "msg": f"child ended with {code}", "stats": {}, "evals": 0, "digest": "err", "known": []}
    return {"status": "violation", "cls": f"process-died", "msg": f"the process ended with status {code} during the run",
            "stats": {}, "evals": 0, "digest": f"died{code}", "known": []}


def execute_sure(mod, sc):
    res = execute(mod, sc)
    if res["status"] == "timeout":
        res = execute(mod, sc, timeout=300)
        if res["status"] == "timeout":
            res["status"] = "violation"
    elif res["status"] == "error":
        res = execute(mod, sc, timeout=300)
    return res


# -------------------------------------------------------------------- minimiser
def _paths(sc, mod):
    """Candidate simplifications of a scenario, biggest first."""
    defaults = getattr(mod, "DEFAULTS", {})

    def walk(node, path):
        if isinstance(node, list):
            n = len(node)
            if n > 3:
                yield path, ("cut", 0, n // 2)
                yield path, ("cut", n // 2, n)
            for i in range(n - 1, -1, -1):
                yield path, ("cut", i, i + 1)
            for i, x in enumerate(node):
                if isinstance(x, (dict, list)):
                    yield from walk(x, path + (i,))
        elif isinstance(node, dict):
            for k in sorted(node):
                if k.startswith("_"):
                    continue
                if isinstance(node[k], (dict, list)):
                    yield from walk(node[k], path + (k,))
            for k in sorted(node):
                for dk, dv in defaults.items():
                    dd = dv.get(k, None) if isinstance(dv, dict) else None
                    if path and path[-1] == dk and k in (dv or {}) and node[k] != dd:
                        yield path, ("set", k, dd)
                if k in ("frac",) and isinstance(node[k], float) and node[k] not in (0.0,):
                    yield path, ("set", k, 0.0)
                    yield path, ("set", k, round(node[k] / 2, 4))
                if node[k] is True and k in ("persist",):
                    yield path, ("set", k, False)
                if k == "arg" and node[k]:
                    yield path, ("set", k, 0)
    yield from walk(sc, ())


def _apply(sc, path, edit):
    sc = json.loads(json.dumps(sc))
    node = sc
    for p in path:
        node = node[p]
    if edit[0] == "cut":
        del node[edit[1]:edit[2]]
    else:
        node[edit[1]] = edit[2]
    return sc


def shrink(mod, sc, cls, budget_s=60):
    """Greedy minimisation that keeps the violation class."""
    end = time.monotonic() + budget_s
    tried = set()
    improved = True
    steps = 0
    while improved and time.monotonic() < end:
        improved = False
        for path, edit in list(_paths(sc, mod)):
            if time.monotonic() > end:
                break
            try:
                cand = _apply(sc, path, edit)
            except (KeyError, IndexError, TypeError):
                continue
            key = json.dumps(cand, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            valid = getattr(mod, "valid", None)
            if valid and not valid(cand):
                continue
            res = execute(mod, cand, timeout=60)
            steps += 1
            if res["status"] == "violation" and res["cls"] == cls:
                sc = cand
                improved = True
                break
    return sc, steps


# ----------------------------------------------------------------------- batch
def _worker(mod, base, tier, idx, n, deadline, fd):
    out = os.fdopen(fd, "wb")
    i = idx
    while i < n and time.monotonic() < deadline:
        sc = make_scenario(mod, base, i, tier)
        t = time.monotonic()
        res = execute_sure(mod, sc)
        res["i"] = i
        res["t"] = time.monotonic() - t
        if res["status"] != "ok":
            res["sc"] = sc
        pickle.dump(res, out)
        out.flush()
        if res["status"] == "violation" and not os.environ.get("VERIF_KEEP_GOING"):
            break
        i += NWORK
    out.close()
    os._exit(0)


def batch(mod, base, tier, n, wall, pmap=None):
    deadline = time.monotonic() + wall
    fds, pids = [], []
    for k in range(NWORK):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            try:
                _worker(mod, base, tier, k, n, deadline, w)
            finally:
                os._exit(1)
        os.close(w)
        fds.append(r)
        pids.append(pid)
    bufs = {f: [] for f in fds}
    live = set(fds)
    while live:
        rl, _, _ = select.select(list(live), [], [], 5)
        for f in rl:
            b = os.read(f, 1 << 16)
            if b:
                bufs[f].append(b)
            else:
                live.discard(f)
                os.close(f)
    for p in pids:
        os.waitpid(p, 0)
    results = []
    import io

    for f in fds:
        bio = io.BytesIO(b"".join(bufs[f]))
        while True:
            try:
                results.append(pickle.load(bio))
            except EOFError:
                break
    results.sort(key=lambda r: r["i"])
    return results


# ---------------------------------------------------------------------- findings
def load_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main_check(pid, tier):
    t0 = time.monotonic()
    base = os.environ.get("VERIF_SEED", "1")
    mod = prop_module(pid)
    mod.ID = pid
    begin(mod)
    n = int(os.environ.get("VERIF_RUNS", mod.RUNS[tier]))
    wall = float(os.environ.get("VERIF_WALL", mod.WALL[tier]))
    print(f"{pid} {tier} seed={base} runs={n} wall-cap={wall}s workers={NWORK}", flush=True)
    results = batch(mod, base, tier, n, wall)
    stats = collections.Counter()
    evals = 0
    digests = set()
    bad, errors, skips = [], [], 0
    known = collections.Counter()
    for r in results:
        stats.update(r["stats"])
        evals += r["evals"]
        digests.add(r["digest"])
        for k in r.get("known", []):
            known[k] += 1
        if r["status"] == "violation":
            bad.append(r)
        elif r["status"] == "error":
            errors.append(r)
        elif r["status"] == "skip":
            skips += 1
    # repeatability: the first runs once more, in fresh processes, must give the same digest
    redo, diverged = 0, 0
    if not bad and not errors:
        for r in results[:: max(1, len(results) // 6)][:6]:
            if r["status"] != "ok":
                continue
            again = execute(mod, make_scenario(mod, base, r["i"], tier))
            redo += 1
            if again["digest"] != r["digest"] or again["status"] != r["status"]:
                diverged += 1
    wall_s = time.monotonic() - t0
    findings = [f for f in load_findings() if f.get("property") == pid and f.get("status") == "known"]
    for f in findings:
        print(f"KNOWN-FINDING: property={pid} {f['what']} (met {known[f['key']]} times in this batch)")
    rc = 0
    vio = None
    if bad:
        r = bad[0]
        sc, steps = shrink(mod, r["sc"], r["cls"], budget_s=float(os.environ.get("VERIF_SHRINK", "45")))
        fin = execute_sure(mod, sc)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", f"{pid}-{r['sc']['_seed']:x}.json")
        vio = {"property": pid, "seed": base, "run": r["i"], "run_seed": r["sc"]["_seed"], "class": r["cls"],
               "message": fin.get("msg", r["msg"]), "digest": fin.get("digest"), "shrink_steps": steps,
               "scenario": sc, "original_scenario": r["sc"]}
        with open(rp, "w") as f:
            json.dump(vio, f, indent=1, sort_keys=True)
        print(f"violation class {r['cls']} in run {r['i']} (run seed {r['sc']['_seed']:#x}), minimised in {steps} steps")
        print(f"  {fin.get('msg', r['msg'])[:1500]}")
        print(f"  replay: bash {ROOT}/checks/replay.sh {rp}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        rc = 1
    elif errors:
        print("harness error:", errors[0]["msg"][-2500:], file=sys.stderr)
        rc = 3
    write_evidence(mod, tier, base, results, stats, evals, digests, skips, wall_s, redo, diverged, known, vio)
    print(f"{pid}: {len(results)} runs, {evals} oracle evaluations, {len(digests)} distinct executions, "
          f"{sum(v for k, v in stats.items() if k.startswith('fault:'))} faults fired, {skips} skipped, {wall_s:.1f}s"
          + (f", {diverged}/{redo} repeats diverged" if diverged else ""), flush=True)
    return rc


def write_evidence(mod, tier, base, results, stats, evals, digests, skips, wall_s, redo, diverged, known, vio):
    runs = len(results)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")}
    samples = []
    for r in results[:3]:
        samples.append({"run": r["i"], "run_seed": run_seed(base, mod.ID, r["i"]), "digest": r["digest"],
                        "scenario": make_scenario(mod, base, r["i"], tier)})
    ev = {
        "property": mod.ID, "tier": tier, "seed": int(base) if str(base).isdigit() else 0, "level": mod.LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(digests),
            "rule": getattr(mod, "RULE", "distinct executions: different digests of the sequence of simulated file operations, scheduling decisions, "
                            "faults and outcomes, of runs in which the oracle was evaluated"),
            "samples": samples,
            "runs": runs,
            "seeds_per_hour": round(runs / max(wall_s, 1e-6) * 3600),
            "runs_per_hour": round(runs / max(wall_s, 1e-6) * 3600),
            "simulated_time": mod.SIMTIME if hasattr(mod, "SIMTIME") else
            f"the code has no timers here; simulated progress is {stats.get('sim_io_ops', 0)} file operations and "
            f"{stats.get('sim_steps', 0)} scheduler steps",
            "faults_fired": faults,
            "probes": probes,
            "runs_out_of_domain": skips,
            "repeatability": {"repeated_runs": redo, "diverged": diverged},
            "known_findings_met": dict(known),
            "real": mod.REAL, "stub": mod.STUB,
        },
        "wall_s": round(wall_s, 2),
    }
    if vio:
        ev["coverage"]["violation"] = {"class": vio["class"], "message": vio["message"][:500]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", f"{mod.ID}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def warm(mod):
    """Import everything once in the parent, before forking."""
    import warnings

    warnings.simplefilter("ignore")
    import h5py  # noqa: F401
    import numpy  # noqa: F401
    from astropy.coordinates import EarthLocation  # noqa: F401

    import pyuvdata

    assert pyuvdata.__file__.startswith("/repo/src/"), pyuvdata.__file__
    from pyuvdata import UVBeam, UVCal, UVData, UVFlag  # noqa: F401

    from . import fmts, objs

    d = f"/dev/shm/vw{os.getpid():010d}"
    os.makedirs(d, exist_ok=True)
    try:  # fills lazily loaded tables (IERS, leap seconds, ...) before forking
        for nm, fm in fmts.UVD.items():
            u = objs.make_uvd({"phase": "sid"})
            p = os.path.join(d, "w." + nm)
            fm.write(u, p)
            fm.read(p)
        if hasattr(mod, "warm"):
            mod.warm(d)
    except Exception:  # noqa: BLE001  (a broken tree is for the runs to report)
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    import gc

    gc.collect()
    gc.freeze()


def begin(mod):
    warm(mod)
    if hasattr(mod, "start"):
        mod.start(mod)


def main_replay(path):
    with open(path) as f:
        vio = json.load(f)
    mod = prop_module(vio["property"])
    mod.ID = vio["property"]
    begin(mod)
    res = execute_sure(mod, vio["scenario"])
    print(json.dumps({k: res.get(k) for k in ("status", "cls", "msg", "digest")}, indent=1))
    if res["status"] == "violation":
        same = res["cls"] == vio["class"] and res["digest"] == vio["digest"]
        print("reproduced exactly" if same else "a violation, but not the recorded one")
        print(f"VIOLATION property={vio['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


def explore(pid, base, n):
    """Development: run a batch to the end, show every class of violation once."""
    os.environ["VERIF_KEEP_GOING"] = "1"
    mod = prop_module(pid)
    mod.ID = pid
    begin(mod)
    t = time.monotonic()
    results = batch(mod, base, "quick", n, 3600)
    seen = collections.Counter()
    stats = collections.Counter()
    for r in results:
        stats.update(r["stats"])
        if r["status"] in ("violation", "error"):
            c = r.get("cls", "error")
            seen[c] += 1
            if seen[c] <= int(os.environ.get("VERIF_SHOW", "1")):
                print(c, r["i"], r["msg"][-900:])
                print("   ", json.dumps(r["sc"], sort_keys=True)[:6000])
    print(dict(collections.Counter(r["status"] for r in results)), dict(seen))
    print({k: v for k, v in sorted(stats.items())})
    ts = sorted(r["t"] for r in results)
    print("known", collections.Counter(k for r in results for k in r.get("known", [])))
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(results, key=lambda r: -r["t"])[:int(os.environ["VERIF_SLOW"])]:
            print("slow", r["i"], round(r["t"], 1), json.dumps(make_scenario(mod, base, r["i"], "quick"), sort_keys=True)[:600])
    print(f"{len(results)} runs {time.monotonic() - t:.1f}s; median {ts[len(ts) // 2]:.3f} max {ts[-1]:.3f}; "
          f"{len(set(r['digest'] for r in results))} distinct")
    return 0
