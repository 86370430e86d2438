"""Seeded generators of bodies and stations, and the encoding of doubles.

Every random choice comes from the generator's own random.Random; nothing here uses
GEEC.  Boundary triangles are a certificate: the specification verifies them
(Body!IsHull) before it uses them.
"""
import math
import random
import struct

import numpy as np
from scipy.spatial import ConvexHull


def enc(x):
    """a double as two signed 32 bit integers (-0 as 0)"""
    return list(struct.unpack(">ii", struct.pack(">d", float(x) + 0.0)))


def encv(v):
    return [enc(x) for x in v]


def encm(m):
    return [encv(r) for r in m]


def triangles(points):
    """outward oriented boundary triangles (1-based indices) of the convex hull"""
    h = ConvexHull(points)
    c = np.mean(points[h.vertices], axis=0)
    tri = []
    for s in h.simplices:
        a, b, d = (int(i) for i in s)
        n = np.cross(points[b] - points[a], points[d] - points[a])
        if np.dot(n, points[a] - c) < 0:
            b, d = d, b
        tri.append([a + 1, b + 1, d + 1])
    return tri


def fat(points, ratio=1e-4):
    """full dimensional, not too thin, no sliver triangle"""
    try:
        h = ConvexHull(points)
    except Exception:
        return False
    size = (points.max(0) - points.min(0)).max()
    s = np.linalg.svd(points[h.vertices] - points[h.vertices].mean(0), compute_uv=False)
    if s[2] < ratio * s[0] or h.volume < ratio * 1e-2 * size**3 * ratio:
        return False
    return True


def rotation(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


BODIES = ["lattice", "lattice", "lattice", "box", "box", "tetra", "generic", "generic",
          "slab", "needle", "gridpts", "prism", "sphere", "dup", "cluster"] * 4 + ["many"]


def body(rng, kind=None):
    """(kind, points, exact) - exact: small integer or dyadic coordinates"""
    while True:
        k = kind or rng.choice(BODIES)
        exact = False
        if k == "lattice":
            R = rng.choice([1, 2, 3, 5])
            n = rng.randint(4, 9)
            p = [[rng.randint(-R, R) for _ in range(3)] for _ in range(n)]
            exact = True
        elif k == "box":
            lo = [rng.randint(-4, 4) / 2 for _ in range(3)]
            hi = [x + rng.choice([0.5, 1, 1, 2, 3]) for x in lo]
            p = [[(lo, hi)[i & 1][0], (lo, hi)[i >> 1 & 1][1], (lo, hi)[i >> 2][2]]
                 for i in range(8)]
            rng.shuffle(p)
            exact = True
        elif k == "tetra":
            p = [[rng.uniform(-2, 2) for _ in range(3)] for _ in range(4)]
        elif k == "generic":
            n = rng.randint(5, 14)
            p = [[rng.gauss(0, 1) for _ in range(3)] for _ in range(n)]
        elif k == "slab":
            t = rng.choice([0.25, 0.03125, 0.0078125])
            p = [[rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([0, t])]
                 for _ in range(8)]
            exact = True
        elif k == "needle":
            p = [[rng.randint(-64, 64), rng.randint(-1, 1), rng.randint(-1, 1)]
                 for _ in range(7)]
            exact = True
        elif k == "gridpts":
            g = [[x, y, z] for x in range(3) for y in range(3) for z in range(3)]
            p = rng.sample(g, rng.randint(10, 27))
            exact = True
        elif k == "prism":
            m = rng.randint(3, 7)
            p = [[math.cos(2 * math.pi * i / m), math.sin(2 * math.pi * i / m), z]
                 for i in range(m) for z in (0, 1)]
        elif k == "sphere":
            n = rng.randint(20, 40)
            p = []
            for _ in range(n):
                v = np.array([rng.gauss(0, 1) for _ in range(3)])
                p.append((v / np.linalg.norm(v)).tolist())
        elif k == "dup":
            p = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(6)]
            p = p + rng.sample(p, 2) + [list(np.mean(p, axis=0))]
            rng.shuffle(p)
            exact = True
        elif k == "many":
            # a hull of many faces, or many points inside
            n = rng.choice([50, 70, 110, 200])
            u = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(n)])
            if rng.random() < 0.5:
                p = u
            else:
                p = u / np.linalg.norm(u, axis=1)[:, None] * np.array([1, rng.uniform(0.3, 2), 1])
        elif k == "cluster":
            # two points much closer to each other than to the rest
            p = [[rng.gauss(0, 1) for _ in range(3)] for _ in range(6)]
            p.append([x + 1e-3 * rng.gauss(0, 1) for x in p[0]])
        p = np.array(p, dtype=float)
        if fat(p, 1e-3):
            return k, p, exact


STATIONS = ["out", "out", "out", "in", "in", "plane", "plane", "line", "face", "edge",
            "nearface", "nearedge", "axis", "far", "mid", "above", "foot"]


def station(rng, p, tri, kind=None):
    k = kind or rng.choice(STATIONS)
    size = (p.max(0) - p.min(0)).max()
    cen = p.mean(0)
    t = rng.choice(tri)
    a, b, c = (p[i - 1] for i in t)
    n = np.cross(b - a, c - a)
    n = n / np.linalg.norm(n)
    u = np.array([rng.gauss(0, 1) for _ in range(3)])
    u /= np.linalg.norm(u)
    if k == "out":
        s = cen + u * size * rng.uniform(0.6, 3)
    elif k == "mid":
        s = cen + u * size * rng.uniform(3, 20)
    elif k == "far":
        s = cen + u * size * rng.uniform(20, 100)
    elif k == "in":
        w = np.array([rng.random() for _ in range(len(p))])
        s = (w / w.sum()) @ p
    elif k == "plane":
        s = a + rng.randint(-4, 4) / 2 * (b - a) + rng.randint(-4, 4) / 2 * (c - a)
    elif k == "line":
        s = a + rng.choice([-3, -2, -1.5, -0.5, 1.5, 2, 3, 4]) * (b - a)
    elif k == "face":
        i, j = rng.choice([(0.25, 0.5), (0.5, 0.25), (0.125, 0.125), (0.25, 0.25)])
        s = a + i * (b - a) + j * (c - a)
    elif k == "edge":
        f = rng.choice([0.5, 0.25, 0.75, 0.125, 0.1, 1 / 3])
        s = a + f * (b - a)
    elif k == "nearface":
        s = a * 0.5 + b * 0.25 + c * 0.25
        s = s + n * rng.choice([-1, 1]) * size * 10 ** rng.uniform(-7, -1)
    elif k == "nearedge":
        s = a * 0.5 + b * 0.5 + u * size * 10 ** rng.uniform(-4, -1)
    elif k == "hair":
        # next to a face, an edge or a corner, as close as doubles can say
        f = rng.choice([(0.5, 0.25, 0.25), (0.5, 0.5, 0), (0.25, 0.75, 0), (1, 0, 0), (0.9, 0.1, 0), (1.5, -0.5, 0)])
        s = a * f[0] + b * f[1] + c * f[2] + rng.choice([u, n, -n]) * size * 10 ** rng.uniform(-13, -3)
    elif k == "axis":
        # shares one or two coordinates with a vertex
        s = cen + u * size * rng.uniform(0.3, 2)
        for i in rng.sample(range(3), rng.randint(1, 2)):
            s[i] = a[i]
    elif k == "above":
        # straight above or below a vertex, along one axis
        s = a.copy()
        s[rng.randrange(3)] += rng.choice([-2, -1, -0.5, 0.5, 1, 2]) * size
    elif k == "foot":
        # straight above a corner or the middle of a face
        s = rng.choice([a, (a + b + c) / 3, (a + b) / 2]) + n * size * rng.choice(
            [0.01, 0.5, 1, -0.1])
    return k, s


def physics(rng):
    rho = rng.choice([1000.0, 2670.0, -370.0, 1.0, 0.001, 3.5e5, rng.uniform(1, 5000), 1000, -1, 0,
                      0.0, np.float64(rng.uniform(-900, 900)), np.int64(2670), -1e-12])
    gc = rng.choice([6.67408e-11, 6.67408e-11, 6.674e-11, 1.0, 1, rng.uniform(1e-11, 1e-10),
                     np.float64(6.67e-11)])
    return rho, gc


def place(rng, p, obs):
    """move and scale a scene; returns points, stations"""
    m = rng.choice(["id", "id", "id", "scale", "shift", "ecef", "rot", "big"])
    if m == "scale":
        f = 2.0 ** (rng.randint(-8, 20) if rng.random() < 0.6 else rng.choice([-30, -20, -14, 22, 24]))
        return m, p * f, [o * f for o in obs]
    if m == "shift":
        d = np.array([rng.randint(-50, 50) / 2 for _ in range(3)])
        return m, p + d, [o + d for o in obs]
    if m == "ecef":
        f = rng.choice([64.0, 1024.0, 16384.0])
        d = np.array([rng.uniform(-1, 1) for _ in range(3)])
        d = np.round(d / np.linalg.norm(d) * 6.37e6)
        return m, p * f + d, [o * f + d for o in obs]
    if m == "rot":
        r = rotation(rng)
        return m, p @ r.T, [o @ r.T for o in obs]
    if m == "big":
        f = rng.uniform(1e2, 1e5)
        return m, p * f, [o * f for o in obs]
    return m, p, obs
