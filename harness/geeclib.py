"""Import the code under test; anything it raises is the code's, not the harness's."""
import os
import sys
import warnings

import numpy as np


def engine():
    """Polyhedron and Station of the repository"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get("GEEC_REPO", "/repo"))
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from loguru import logger

    logger.remove()
    import geec.polyhedron
    import geec.station

    return geec.polyhedron.Polyhedron, geec.station.Station


def variant(rng, a, writable=False):
    """the same values in another memory layout, or as whole numbers"""
    v = rng.choice(["c", "c", "f", "view"] + ([] if writable else ["ro"])
                   + ["int"] * bool(np.all(a == np.round(a)) and np.abs(a).max() < 1e9)
                   + ["f4"] * bool(np.all(a == a.astype(np.float32))))
    if v == "f4":
        return a.astype(np.float32)
    if v == "int":
        return a.astype(rng.choice([np.int64, np.int64, np.int32]))
    if v == "f":
        return np.asfortranarray(a)
    if v == "view":
        b = np.zeros((2 * a.shape[0],) + a.shape[1:])
        b[::2] = a
        return b[::2]
    b = a.copy()
    if v == "ro":
        b.setflags(write=False)
    return b


class Interrupt:
    """raise an exception at the n-th line executed inside the field computation:
    below the outermost frame of geec/polyhedron.py, out of any reset"""

    def __init__(self, n, exc):
        self.n, self.exc, self.fired = n, exc, False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(("geec/polyhedron.py", "geec/utils.py")):
            return None
        f, inner = frame, 0
        while f is not None:
            if "reset" in f.f_code.co_name:
                return None
            if f.f_code.co_filename.endswith("geec/polyhedron.py"):
                inner += 1
            f = f.f_back
        return self.line if inner >= 2 else None

    def line(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.n -= 1
            if self.n <= 0:
                self.fired = True
                sys.settrace(None)
                raise self.exc("injected")
        return self.line
