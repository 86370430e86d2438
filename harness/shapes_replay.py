"""Faces of bodies, fields of similar bodies, flux through spheres: log what GEEC does."""
import random
import sys

import gen
import numpy as np
import watch
from geeclib import engine, variant


def relabel(rng, p, tri, extra=True):
    """same hull: permuted, repeated, completed points; (points, tri, at)"""
    q = [x for x in p]
    n = len(q)
    if extra:
        for _ in range(rng.randint(0, 3)):
            q.append(p[rng.randrange(n)].copy())
        for _ in range(rng.randint(0, 3)):
            w = np.array([rng.random() for _ in range(n)])
            q.append((w / w.sum()) @ p)
    order = list(range(len(q)))
    rng.shuffle(order)
    at = [0] * n
    for new, old in enumerate(order):
        if old < n:
            at[old] = new + 1
    return (np.array([q[i] for i in order]), [[at[i - 1] for i in t] for t in tri], at)


def onhull(rng, p, tri):
    """points in the middle of sides and faces (exact if coordinates are dyadic)"""
    t = rng.choice(tri)
    a, b, c = (p[i - 1] for i in t)
    return rng.choice([(a + b) / 2, (a + b) / 2, a / 2 + b / 4 + c / 4])


def faces(rng, emit, seed, n):
    Polyhedron, _ = engine()
    i = 0
    while i < n:
        kind, p0, exact = gen.body(rng)
        m, p, _ = gen.place(rng, p0, [])
        tri = gen.triangles(p)
        for v in ("as is", "relabel", "relabel", "onhull"):
            q, tq = p, tri
            if v == "relabel":
                q, tq, _ = relabel(rng, p, tri)
            elif v == "onhull":
                if not exact or m not in ("id", "scale", "shift"):
                    continue
                q = np.vstack([p, [onhull(rng, p, tri) for _ in range(rng.randint(1, 4))]])
                q, tq, _ = relabel(rng, q, tri, extra=False)
            rec = dict(id="s%d.%d" % (seed, i), kind="%s/%s/%s" % (kind, m, v), pts=gen.encm(q),
                       tri=tq, ok=True, err="", faces=[], raw=dict(points=q.tolist()))
            try:
                body = Polyhedron(variant(rng, q))
                rec["faces"] = [dict(c=gen.encm(f.points), n=gen.encv(f.un),
                                     e=[[gen.encv(e.start), gen.encv(e.end)] for e in f.edges])
                                for f in body.faces]
            except Exception as e:
                rec.update(ok=False, err=repr(e))
            emit(rec)
            i += 1


PERM = [np.eye(3)[list(o)] * np.array(s)[:, None]
        for o in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
        for s in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, 1), (-1, 1, -1),
                  (1, -1, -1), (-1, -1, -1))]


def pairs(rng, emit, seed, n):
    Polyhedron, _ = engine()
    kinds = ["out", "out", "in", "in", "plane", "line", "face", "edge", "axis", "mid", "far"]
    i = 0
    while i < n:
        kind, p0, exact = gen.body(rng)
        m, p, obs = gen.place(rng, p0, [gen.station(rng, p0, gen.triangles(p0), rng.choice(kinds))[1]
                                        for _ in range(3)])
        tri = gen.triangles(p)
        body = None
        rho, gc = gen.physics(rng)
        for s in obs:
            R = rng.choice(PERM) if rng.random() < 0.6 else gen.rotation(rng)
            k = rng.choice([1.0, 1.0, 2.0 ** rng.randint(-10, 12), rng.uniform(0.01, 100)])
            size = (p.max(0) - p.min(0)).max()
            d = np.array([rng.choice([0.0, rng.randint(-32, 32) * size * k / 4,
                                      rng.uniform(-3, 3) * size * k]) for _ in range(3)])
            f = rng.choice([1.0, -1.0, 2.5, 1e-3])
            e = rng.choice([1.0, 3.0])
            q = k * (p @ R.T) + d
            q, tq, at = relabel(rng, q, tri, extra=rng.random() < 0.5)
            if np.linalg.det(R) < 0:
                tq = [[t[0], t[2], t[1]] for t in tq]
            s2 = k * (R @ s) + d
            rec = dict(id="p%d.%d" % (seed, i), kind=kind + "/" + m, pts=gen.encm(p), tri=tri,
                       obs=gen.encv(s), pts2=gen.encm(q), tri2=tq, obs2=gen.encv(s2), at=at,
                       R=gen.encm(R), k=gen.enc(k), d=gen.encv(d), rho=gen.enc(rho),
                       gc=gen.enc(gc), f=gen.enc(f), e=gen.enc(e), ok=True, err="",
                       raw=dict(points=p.tolist(), obs=s.tolist(), R=R.tolist(), k=k,
                                d=d.tolist(), rho=rho, gc=gc, f=f, e=e))
            try:
                body = body or Polyhedron(variant(rng, p))
                other = Polyhedron(variant(rng, q))
                G, T = body.get_gravity(s, rho, gc, True)
                G2, T2 = other.get_gravity(s2, rho * f, gc * e, True)
                rec.update(G=gen.encv(G), T=gen.encm(T), G2=gen.encv(G2), T2=gen.encm(T2))
            except Exception as x:
                rec.update(ok=False, err=repr(x))
            emit(rec)
            i += 1


def flux(rng, emit, seed, n):
    Polyhedron, Station = engine()
    nl = 14
    z, wz = np.polynomial.legendre.leggauss(nl)
    ph = (np.arange(2 * nl) + 0.5) * np.pi / nl
    for i in range(n):
        kind, p, exact = gen.body(rng, rng.choice(
            ["lattice", "box", "tetra", "generic", "gridpts", "prism", "dup"]))
        cen = p.mean(0)
        rad = np.linalg.norm(p - cen, axis=1).max()
        mode = rng.choice(["in", "in", "two", "two", "around"])
        tri = gen.triangles(p)
        bodies = [p]
        if mode == "around":
            h = min(np.dot(np.cross(p[b - 1] - p[a - 1], p[c - 1] - p[a - 1])
                           / np.linalg.norm(np.cross(p[b - 1] - p[a - 1], p[c - 1] - p[a - 1])),
                           p[a - 1] - cen) for a, b, c in tri)
            c, r = cen, h / 2
        else:
            r = rad / 0.5
            c = cen
            if mode == "two":
                u = np.array([rng.gauss(0, 1) for _ in range(3)])
                u /= np.linalg.norm(u)
                _, q, _ = gen.body(rng, "box")
                q = q - q.mean(0)
                q = q / np.linalg.norm(q, axis=1).max() * r
                q = c + u * r * 4 + q
                bodies.append(q)
        sc = 2.0 ** rng.randint(-3, 12)
        sh = np.array([rng.randint(-20, 20) * r for _ in range(3)])
        bodies = [(b + sh) * sc for b in bodies]
        c, r = (c + sh) * sc, r * sc
        # one node per direction; turned at random
        R = gen.rotation(rng)
        u = np.array([[np.sqrt(1 - a * a) * np.cos(t), np.sqrt(1 - a * a) * np.sin(t), a]
                      for a in z for t in ph]) @ R.T
        w = np.array([b * np.pi / nl for b in wz for t in ph])
        phys = [gen.physics(rng) for _ in bodies]
        rec = dict(id="x%d.%d" % (seed, i), kind=kind + "/" + mode, c=gen.encv(c), r=gen.enc(r),
                   u=gen.encm(u), w=gen.encv(w), ok=True, err="",
                   bodies=[dict(pts=gen.encm(b), tri=gen.triangles(b), rho=gen.enc(x[0]),
                                gc=gen.enc(x[1])) for b, x in zip(bodies, phys)],
                   raw=dict(bodies=[b.tolist() for b in bodies], phys=phys, c=c.tolist(), r=r))
        try:
            polys = [Polyhedron(b) for b in bodies]
            G = []
            for v in u:
                s = Station(c + r * v)
                for b, x in zip(polys, phys):
                    s.compute_gravity(b, x[0], x[1])
                G.append(s.G)
            rec["G"] = gen.encm(G)
        except Exception as e:
            rec.update(ok=False, err=repr(e))
        emit(rec)


if __name__ == "__main__":
    out, what, seed, n = sys.argv[1:]
    with open(out, "w") as fo:
        {"faces": faces, "pairs": pairs, "flux": flux}[what](
            random.Random(int(seed)), watch.emitter(fo), int(seed), int(n))
