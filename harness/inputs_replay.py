"""Give GEEC arguments of every kind (from InputsGen.tla), good and bad."""
import json
import os
import random
import sys
import warnings

import gen
import numpy as np
import shim
import watch


def describe(a):
    """what can be observed of an argument (see Inputs.tla)"""
    res = dict(array=False, shape=list(a.shape) if isinstance(a, np.ndarray) else [], pts=[], finite=False)
    if isinstance(a, np.ndarray) and a.dtype.kind in "iuf":
        res.update(array=True, shape=list(a.shape), finite=bool(np.isfinite(a).all()))
        if a.ndim == 2 and a.shape[1] == 3 and res["finite"]:
            res["pts"] = gen.encm(a.tolist())
    return res


def flatpoints(rng, k):
    """points in one plane, exactly"""
    n = rng.randint(4, 9)
    while True:
        if k == "plane":
            ax = rng.randrange(3)
            p = np.array([[rng.randint(-6, 6) / 2 for _ in range(3)] for _ in range(n)])
            p[:, ax] = rng.choice([0.0, 2.0, -1.5])
        elif k == "planeint":
            p = np.array([[rng.randint(-6, 6) for _ in range(3)] for _ in range(n)])
            p[:, rng.randrange(3)] = rng.randint(-3, 3)
        elif k == "slanted":
            # small whole numbers: combinations of two vectors
            u, v, o = ([rng.randint(-3, 3) for _ in range(3)] for _ in range(3))
            p = np.array([[o[i] + rng_a * u[i] + rng_b * v[i] for i in range(3)] for rng_a, rng_b in
                          [(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(n)]], dtype=float)
            if np.linalg.norm(np.cross(u, v)) == 0:
                continue
        elif k == "line":
            u = [rng.randint(-3, 3) for _ in range(3)]
            p = np.array([[t * x for x in u] for t in rng.sample(range(-9, 9), n)], dtype=float)
        elif k == "same":
            p = np.ones((n, 3)) * rng.choice([0.0, 2.5, -7.0])
        elif k == "twins":
            # three different points only
            q = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)]
            p = np.array([q[i % 3] for i in range(n)], dtype=float)
        return p


def main(out, path, seed, k, n, reps):
    scratch = os.getcwd()
    repo = os.environ.get("GEEC_REPO", "/repo")
    shim.setup(scratch, repo)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from loguru import logger

    logger.remove()
    import geec.crs as C
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    def solid(rng):
        while True:
            _, p, exact = gen.body(rng)
            if len(p) <= 14:
                return p, exact

    def points(rng, t):
        p, exact = solid(rng)
        if t in ("plane", "planeint", "slanted", "line", "same", "twins"):
            f = flatpoints(rng, t)
            if rng.random() < 0.3:
                f = f + np.array([rng.randint(-4096, 4096) for _ in range(3)])
            return f * 2 ** rng.randint(0, 6) if rng.random() < 0.5 else f
        if t in ("nan", "inf"):
            q = p.copy()
            q[rng.randrange(len(q)), rng.randrange(3)] = dict(nan=np.nan, inf=rng.choice([np.inf, -np.inf]))[t]
            return q
        if t == "solidint":
            while not np.all(p == np.round(p)):
                p, _ = solid(rng)
            return p.astype(int)
        if t == "solid32":
            while not np.all(p == p.astype(np.float32)):
                p, _ = solid(rng)
            return p.astype(np.float32)
        if t.startswith("few"):
            return p[:int(t[3])]
        return dict(solid=p, list=p.tolist(), tuple=tuple(map(tuple, p)), none=None, word="cube", flatten=p.ravel(),
                    stack=p[None], two=p[:, :2].copy(), four=np.c_[p, p[:, 0]], transposed=p[:4 + (len(p) > 4)].T.copy(),
                    empty=np.zeros((0, 3)), allnan=p * np.nan, words=p.astype(str),
                    dict={"points": p}, number=3.5)[t]

    def coord(rng, t, p):
        tri = gen.triangles(p)
        s = gen.station(rng, p, tri, rng.choice(["out", "in", "mid"]))[1]
        if t == "nan":
            s[rng.randrange(3)] = np.nan
        elif t == "inf":
            s[rng.randrange(3)] = rng.choice([np.inf, -np.inf])
        elif t == "goodint":
            s = (np.round(p.max(0)) + 1 + rng.randint(0, 3)).astype(int)
        return dict(list=s.tolist(), tuple=tuple(s.tolist()), none=None, two=s[:2], four=np.r_[s, 1.0], one=s[:1],
                    zero=np.array(s[0]), column=s[:, None], row=s[None], square=np.eye(3) * s, empty=s[:0],
                    words=s.astype(str), number=2.5).get(t, s)

    def number(rng, t):
        return dict(good=rng.uniform(1, 3000), int=rng.randint(1, 3000), zero=0.0, negative=-rng.uniform(1, 9),
                    none=None, word="1000", dict={"v": 1.0}, numpy=np.float64(rng.uniform(1, 9)))[t]

    def bits(*a):
        return [gen.encv(np.asarray(x, dtype=float).ravel()) for x in a]

    def one(rng, sc, rid, emit):
        rec = dict(id=rid, op=sc["op"], scenario=sc, ok=True, err="", g=[0, 0, 0], before=[], after=[],
                   arg=describe(None), built=False, bodies=[], rho=True, gc=True, e="", f="")
        body(rng, sc, rec)
        emit(rec)

    def boxed(ps):
        a = np.empty(len(ps), dtype=object)
        for i, x in enumerate(ps):
            a[i] = x
        return a

    def attempt(rec, f):
        try:
            return f()
        except Exception as e:
            rec["ok"], rec["err"] = False, repr(e)[:200]

    def body(rng, sc, rec):
        if sc["op"] == "label":
            def ell(t):
                return None if t == "none" else C.Ellipsoid(semimajor_axis=6378000.5, semiminor_axis=6356000.25) \
                    if t == "axes" else C.Ellipsoid(name=t)

            e, f = ell(sc["e"]), ell(sc["f"])
            if sc["e"] == sc["f"] and rng.random() < 0.5:
                f = e
            rec.update(e=sc["e"], f=sc["f"])
            attempt(rec, lambda: C.CRS(
                name=C.CRSEnum.ENU, ellps=e,
                enu=C.ENU(ellps=f, longitude_origin=3.0, latitude_origin=40.0, altitude_origin=5.0)))
            return
        if sc["op"] == "body":
            a = points(rng, sc["a"])
            rec["arg"] = describe(a)
            attempt(rec, lambda: Polyhedron(a))
            return
        p, _ = solid(rng)
        q, _ = solid(rng)
        good, other = Polyhedron(p), Polyhedron(q)
        here = gen.station(rng, p, gen.triangles(p), "out")[1]
        st = Station(here.copy())
        st.compute_gravity([good, other], 100.0, 6e-11, gradient=True)

        def state():
            return bits(st.G, st.T, st.coord, *good.get_gravity(here + 0.5, 3.0, 1e-11, True),
                        *other.get_gravity(here + 0.5, 3.0, 1e-11, True))

        rec["before"] = state()
        grad = rng.random() < 0.5
        if sc["op"] == "station":
            c = coord(rng, sc["a"], p)
            rec["arg"] = describe(c)

            def run():
                if sc["via"] == "station":
                    s = Station(c)
                    rec["built"] = True
                    s.compute_gravity(good, 1000.0, 6e-11, gradient=grad)
                    return s.G
                return good.get_gravity(c, 1000.0, 6e-11, grad)[0]

            g = attempt(rec, run)
            if rec["ok"]:
                rec["g"] = gen.encv(np.asarray(g, dtype=float))
        else:
            bad = dict(good=good, none=None, number=3.0, points=p, face=good.faces[0], station=st, word="body",
                       nested=[good])
            bad["class"] = Polyhedron
            x = bad[sc["a"]]
            isb = sc["a"] == "good"
            w = sc["where"]
            ps, fl = dict(alone=([x], [isb]), first=([x, good], [isb, True]), last=([other, good, x], [True, True, isb]),
                          middle=([good, x, other], [True, isb, True]), nothing=([], []),
                          **{k: ([x, good], [isb, True]) for k in ("tuple", "iterator", "array", "map")})[w]
            if w in ("tuple", "iterator", "array", "map"):
                # all bodies, but not in a list
                ps = dict(tuple=tuple(ps), iterator=iter(ps), map=dict(enumerate(ps)))[w] if w != "array" else boxed(ps)
                fl = [False]
            if w == "alone" and rng.random() < 0.5 and not isinstance(x, list):
                ps = x
            rho, gc = number(rng, sc["rho"]), number(rng, sc["gc"])
            rec.update(bodies=fl, rho=isinstance(rho, (int, float)), gc=isinstance(gc, (int, float)))
            attempt(rec, lambda: st.compute_gravity(ps, rho, gc, gradient=grad))
        rec["after"] = rec["before"] if rec["ok"] and sc["op"] == "call" else state()

    with open(path) as f:
        scns = json.load(f)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        for i in range(int(k), len(scns), int(n)):
            for j in range(int(reps) * (1 if scns[i]["op"] in ("call", "label") else 12)):
                one(random.Random((int(seed) * 100003 + i) * 1009 + j), scns[i], "i%d.%d" % (i, j), emit)


if __name__ == "__main__":
    main(*sys.argv[1:])
