"""Seam for asynchronous interruption: an exception at a chosen line of the package.

A real SIGINT or a failed allocation can surface at any point of the running
Python code.  The simulator watches the line events of pyuvdata's own frames
and raises at the chosen one, so that the point is exactly repeatable.

Most line events of an operation lie in loops of deep helpers (checks of the
object), so the point is not drawn uniformly from events: first a call depth
(the operation itself, what it calls, ...), then a line at this depth, then one of
its occurrences.
"""
import sys

ROOTS = ("/repo/src/pyuvdata/",)


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


EXC = {"interrupt": SimInterrupt, "memory": SimMemoryError}
MAXDEPTH = 5
WEIGHT = {1: 1, 2: 4, 3: 3, 4: 1.5, 5: 1}


class Lines:
    """Counts line events; raises at occurrence k of line (file, lineno) if `target` is given."""

    def __init__(self, target=None, kind="interrupt"):
        self.target, self.kind, self.n, self.fired, self.where = target, kind, 0, False, None
        self.sites = {}
        self.depth = 0
        self.handler = False

    def _global(self, frame, event, arg):
        # (Python itself discards exceptions in finalizers: not a point of interruption)
        if frame.f_code.co_filename.startswith(ROOTS) and frame.f_code.co_name != "__del__":
            self.depth += 1
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            key = (frame.f_code.co_filename, frame.f_lineno)
            s = self.sites.get(key)
            if s is None:
                s = self.sites[key] = [self.depth, 0]
            elif self.depth < s[0]:
                s[0] = self.depth
            s[1] += 1
            if self.target is not None and key == self.target[:2] and s[1] > self.target[2]:
                self.fired = True
                self.where = f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_code.co_name}"
                # (frames of a handler interrupted by a trace function stay in an uncollected cycle)
                self.handler = sys.exc_info()[0] is not None
                sys.settrace(None)
                raise EXC[self.kind]("injected")
        elif event == "return":
            self.depth -= 1
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False

    def pick(self, fd, fs, fo):
        """A target among the recorded sites: fractions choosing depth, line, occurrence."""
        by = {}
        for key, (d, c) in self.sites.items():
            by.setdefault(min(d, MAXDEPTH), []).append((key, c))
        if not by:
            return None
        ds = sorted(by)
        w = [WEIGHT[d] for d in ds]
        x = fd * sum(w)
        for d, wd in zip(ds, w):  # noqa: B007
            x -= wd
            if x < 0:
                break
        lines = sorted(by[d])
        key, c = lines[min(int(fs * len(lines)), len(lines) - 1)]
        return key + (min(int(fo * c), c - 1),)


def gen_point(rng):
    return [round(rng.random(), 4) for _ in range(3)]
