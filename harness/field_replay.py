"""Evaluate the field with GEEC for generated bodies and stations; log a trace."""
import random
import sys

import gen
import watch
from geeclib import engine, variant

def main(out, seed, n, stations, bodies=None):
    Polyhedron, Station = engine()
    rng = random.Random(seed)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        i = 0
        while i < n:
            kb, p0, exact = gen.body(rng, rng.choice(bodies) if bodies else None)
            tri = gen.triangles(p0)
            ks = []
            obs = []
            for _ in range(4):
                k, s = gen.station(rng, p0, tri, rng.choice(stations))
                ks.append(k)
                obs.append(s)
            m, p, obs = gen.place(rng, p0, obs)
            if m in ("ecef", "rot", "big", "scale"):
                tri = gen.triangles(p)
            body = None
            pv = variant(rng, p)
            rho, gc = gen.physics(rng)
            for k, s in zip(ks, obs):
                grad = rng.random() < 0.8
                rec = dict(id="f%d.%d" % (seed, i), kind="%s/%s/%s" % (kb, m, k),
                           pts=gen.encm(p), tri=tri, obs=gen.encv(s), rho=gen.enc(rho),
                           gc=gen.enc(gc), grad=grad, ok=True, err="")
                try:
                    body = body or Polyhedron(pv)
                    if rng.random() < 0.5:
                        G, T = body.get_gravity(variant(rng, s), rho, gc, grad)
                    else:
                        st = Station(variant(rng, s))
                        st.compute_gravity(rng.choice([body, [body]]), rho, gc,
                                           gradient=grad)
                        G, T = st.G, st.T
                    rec["G"] = gen.encv(G)
                    rec["T"] = gen.encm(T)
                except Exception as e:
                    rec["ok"], rec["err"] = False, repr(e)
                rec["raw"] = dict(points=p.tolist(), obs=s.tolist(), rho=rho, gc=gc)
                emit(rec)
                i += 1


if __name__ == "__main__":
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    main(out, seed, n, sys.argv[4].split(","))
