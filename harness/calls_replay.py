"""Replay histories of calls (from CallsGen.tla) on GEEC; log what stations hold."""
import json
import random
import sys

import gen
import watch
import numpy as np
from geeclib import Interrupt, engine, variant


def cut(rng, p):
    """cut the hull of p by a plane: points of the two parts"""
    tri = gen.triangles(p)
    for _ in range(20):
        if rng.random() < 0.5:
            n = np.zeros(3)
            n[rng.randrange(3)] = 1
        else:
            n = np.array([rng.gauss(0, 1) for _ in range(3)])
        o = p.mean(0) + (p.max(0) - p.min(0)) * rng.uniform(-0.2, 0.2)
        d = (p - o) @ n
        if abs(d).min() < 1e-3 * abs(d).max():
            continue
        mid = []
        for t in tri:
            for i, j in ((0, 1), (1, 2), (2, 0)):
                a, b = t[i] - 1, t[j] - 1
                if a < b and d[a] * d[b] < 0:
                    mid.append(p[a] + (p[b] - p[a]) * d[a] / (d[a] - d[b]))
        parts = [np.array([x for x, e in zip(p, d) if s * e > 0] + mid) for s in (1, -1)]
        if all(len(x) > 3 and gen.fat(x, 1e-2) for x in parts):
            return parts
    return None


def shape(body):
    """corners and normals of a body's faces"""
    return [np.asarray(x, dtype=float).tobytes() for f in body.faces for x in (f.points, f.un)]


class World:
    def __init__(self, rng, scn, pieces):
        self.rng = rng
        self.Polyhedron, self.Station = engine()
        nb, ns = scn["bodies"], scn["stations"]
        while True:
            bodies = []
            for i in range(nb - 1):
                k, p, exact = gen.body(rng)
                if i:
                    p = p + np.array([rng.randint(-6, 6) / 2 for _ in range(3)])
                bodies.append(p)
            bodies.append(bodies[0])
            self.parts = []
            if pieces:
                self.parts = cut(rng, bodies[1])
                if not self.parts:
                    continue
                bodies += self.parts
            break
        tri0 = gen.triangles(bodies[0])
        obs = []
        for _ in range(ns - 1):
            b = bodies[rng.randrange(nb)]
            obs.append(gen.station(rng, b, gen.triangles(b), rng.choice(
                ["in", "out", "out", "mid", "plane"]))[1])
        if ns > 2 and rng.random() < 0.4:
            # two stations next to each other
            size = (bodies[0].max(0) - bodies[0].min(0)).max()
            obs[1] = obs[0] + np.array([rng.gauss(0, 1) for _ in range(3)]) \
                * size * 10 ** rng.uniform(-8, -3)
        obs.append(bodies[0][tri0[0][0] - 1].copy())
        allp = np.concatenate(bodies)
        while True:
            m, q, o = gen.place(rng, allp, obs)
            if m != "rot":
                break
        obs = o
        cutat = np.cumsum([len(b) for b in bodies])[:-1]
        self.pts = np.split(q, cutat)
        self.arrays = [variant(rng, p, writable=True) for p in self.pts]
        self.arrays[nb - 1] = self.arrays[0]
        self.pts[nb - 1] = self.pts[0]
        self.coords = [variant(rng, s, writable=True) for s in obs]
        self.obs = [s.copy() for s in obs]
        self.snap()
        self.ph = [gen.physics(rng) for _ in range(3)]
        self.buf = np.zeros(3)
        self.results = []

    def build(self):
        # the first and the last body share the array
        self.bodies = [self.Polyhedron(a) for a in self.arrays]
        self.stations = [self.Station(c) for c in self.coords]
        self.held = [np.array(b.points) for b in self.bodies]
        self.shapes = [shape(b) for b in self.bodies]
        self.at = [np.array(s.coord) for s in self.stations]
        self.slot = list(range(len(self.bodies)))

    def rebuild(self, k):
        """another body takes the place of a former one"""
        _, p, _ = gen.body(self.rng)
        q = self.pts[self.slot[k]]
        size = (q.max(0) - q.min(0)).max()
        p = p / (p.max(0) - p.min(0)).max() * size
        p = p - p.mean(0) + q.mean(0)
        a = variant(self.rng, p, writable=True)
        body = self.Polyhedron(a)
        self.bodies[self.slot[k]] = None
        self.slot[k] = len(self.bodies)
        self.pts.append(p)
        self.arrays.append(a)
        self.bodies.append(body)
        self.held.append(np.array(body.points))
        self.shapes.append(shape(body))
        self.snap()
        return p

    def given(self, st):
        """where a field is asked: the station's array, or one used again and again"""
        if self.rng.random() < 0.5:
            return self.coords[st]
        self.buf[:] = self.coords[st]
        return self.buf

    def result(self, G, T):
        self.results = self.results[-3:] + [(G, T, np.array(G), np.array(T))]

    def snap(self):
        self.keep = [image(a) for a in self.arrays]
        self.keepc = [image(a) for a in self.coords]

    def changed(self):
        c = ["points of body %d" % (i + 1) for i, a in enumerate(self.arrays)
             if image(a) != self.keep[i]]
        c += ["coordinates of station %d" % (i + 1) for i, a in enumerate(self.coords)
              if image(a) != self.keepc[i]]
        if hasattr(self, "held"):
            for i, s in enumerate(self.stations):
                if not np.array_equal(s.coord, self.at[i]):
                    c.append("coord of station %d" % (i + 1))
            for i, b in enumerate(self.bodies):
                # a body may keep the caller's array, and see the caller's changes
                if b is not None and not (np.array_equal(b.points, self.held[i])
                        or np.array_equal(b.points, self.arrays[i])):
                    c.append("points held by body %d" % (i + 1))
                if b is not None and np.array_equal(self.arrays[i], self.held[i]) and shape(b) != self.shapes[i]:
                    c.append("faces of body %d" % (i + 1))
        for G, T, g, t in self.results:
            if not (np.array_equal(G, g, equal_nan=True) and np.array_equal(T, t, equal_nan=True)):
                c.append("results of a former call")
        self.results = [r for r in self.results if np.array_equal(r[0], r[2], equal_nan=True)]
        return c

    def after(self):
        return [dict(G=gen.encv(s.G), T=gen.encm(s.T)) for s in self.stations]


def image(a):
    """what a caller sees of an array: its numbers, their layout, and whether it can be written"""
    return a.tobytes(), a.shape, a.dtype.str, a.flags.writeable


def run(rng, scn, hist, tr, emit):
    w = World(rng, scn, "cut" in scn["kinds"])
    rec = dict(id=tr + ".0", trace=tr, op="begin", ok=True, err="", changed=[],
               bodies=[dict(pts=gen.encm(p), tri=gen.triangles(p)) for p in w.pts],
               obs=[gen.encv(o) for o in w.obs], after=[],
               raw=dict(bodies=[p.tolist() for p in w.pts],
                        stations=[o.tolist() for o in w.obs], history=hist))
    try:
        w.build()
        rec["after"] = w.after()
        rec["changed"] = w.changed()
    except Exception as e:
        rec.update(ok=False, err=repr(e))
        emit(rec)
        return
    emit(rec)
    for k, h in enumerate(hist):
        rho, gc = w.ph[h["phys"] - 1]
        st = h["s"]
        bs = [w.slot[b - 1] + 1 for b in h["bs"]]
        op = h["op"]
        rec = dict(id="%s.%d" % (tr, k + 1), trace=tr, op=op, st=st, rho=gen.enc(rho),
                   gc=gen.enc(gc), grad=h["grad"], fault=False, ok=True, err="",
                   scenario=h)
        arho, agc, fault = rho, gc, None
        if op in ("compute", "field"):
            if h["fault"] == "density":
                arho, rec["fault"] = None, True
            elif h["fault"] == "gc":
                agc, rec["fault"] = None, True
            elif h["fault"] in ("interrupt", "error"):
                fault = Interrupt(h["at"], KeyboardInterrupt if h["fault"] == "interrupt"
                                  else RuntimeError)
        args = None
        try:
            if op == "compute":
                if h["single"] and bs:
                    bs = bs[:1]
                    args = w.bodies[bs[0] - 1]
                else:
                    args = [w.bodies[b - 1] for b in bs]
                    if h["fault"] == "type":
                        args.append(rng.choice(["body", None, 3]))
                        rec["fault"] = True
                keep = list(args) if isinstance(args, list) else args
                if fault:
                    with fault:
                        w.stations[st - 1].compute_gravity(args, arho, agc, h["grad"])
                else:
                    w.stations[st - 1].compute_gravity(args, arho, agc, h["grad"])
            elif op == "field":
                bs = [w.slot[h["b"] - 1] + 1]
                body = w.bodies[bs[0] - 1]
                where = w.given(st - 1)
                if fault:
                    with fault:
                        G, T = body.get_gravity(where, arho, agc, h["grad"])
                else:
                    G, T = body.get_gravity(where, arho, agc, h["grad"])
                rec["G"], rec["T"] = gen.encv(G), gen.encm(mat(T))
                if rng.random() < 0.3:
                    # the result is the caller's: it may be changed
                    G *= 2
                w.result(G, T)
            elif op in ("order", "cut", "flag"):
                cs = list(bs)
                rng.shuffle(cs)
                gb = h["grad"]
                if op == "cut":
                    bs = [2]
                    cs = list(range(scn["bodies"] + 1, scn["bodies"] + 1 + len(w.parts)))
                if op == "flag":
                    cs, gb, rec["grad"] = bs, False, True
                a, b = (w.Station(w.coords[st - 1]) for _ in range(2))
                first = rng.random() < 0.5
                if first:
                    a.compute_gravity([w.bodies[i - 1] for i in bs], rho, gc, rec["grad"])
                for i in cs:
                    b.compute_gravity(w.bodies[i - 1], rho, gc, gb)
                if not first:
                    a.compute_gravity([w.bodies[i - 1] for i in bs], rho, gc, rec["grad"])
                rec["cs"] = cs
                rec["A"] = dict(G=gen.encv(a.G), T=gen.encm(a.T))
                rec["B"] = dict(G=gen.encv(b.G), T=gen.encm(b.T))
            elif op == "mutate":
                a = w.arrays[w.slot[h["b"] - 1]]
                a[:] = a * 2 + 1
                w.snap()
            elif op == "rebuild":
                rec["pts"] = gen.encm(w.rebuild(h["b"] - 1))
                rec["tri"] = gen.triangles(w.pts[-1])
                rec["raw"] = dict(body=w.pts[-1].tolist())
            elif op == "restation":
                w.stations[st - 1] = w.Station(w.coords[st - 1])
        except BaseException as e:
            sys.settrace(None)
            rec.update(ok=False, err=repr(e))
            rec["fault"] = rec["fault"] or "injected" in str(e)
        rec["bs"] = bs
        rec["changed"] = w.changed()
        if isinstance(args, list) and (len(args) != len(keep)
                                       or any(x is not y for x, y in zip(args, keep))):
            rec["changed"].append("list of bodies")
        try:
            rec["after"] = w.after()
        except Exception as e:
            rec.update(ok=False, fault=False, err=repr(e))
            rec["after"] = []
        emit(rec)
        if not rec["after"]:
            return


def mat(T):
    T = np.asarray(T, dtype=float)
    return T if T.shape == (3, 3) else np.broadcast_to(T, (3, 3))


def main(out, path, seed, k, n):
    with open(path) as f:
        scn = json.load(f)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        for i in range(int(k), len(scn["histories"]), int(n)):
            rng = random.Random(int(seed) * 100003 + i)
            run(rng, scn, scn["histories"][i], "h%d" % i,
                emit)


if __name__ == "__main__":
    main(*sys.argv[1:])
