"""Small scope: bodies and stations of small lattices (from SmallGen.tla) given to GEEC."""
import json
import random
import sys

import gen
import numpy as np
import watch
from geeclib import engine
from inputs_replay import describe


def main(out, what, path, seed, k, n):
    Polyhedron, Station = engine()
    with open(path) as f:
        scns = json.load(f)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        for i in range(int(k), len(scns), int(n)):
            sc = scns[i]
            rng = random.Random(int(seed) * 1000003 + i)
            # exact: a power of two
            h = 2.0 ** rng.choice([-1, -1, -1, 0, 3, 9, -12])
            p = np.array(sc["pts"], dtype=float) * h
            order = list(range(len(p)))
            rng.shuffle(order)
            p = p[order]
            rec = dict(id="l%d" % i, kind="lattice", ok=True, err="", scenario=sc, raw=dict(points=p.tolist()))
            if what == "inputs":
                rec.update(op="body", g=[0, 0, 0], before=[], after=[], arg=describe(p), bodies=[], built=False, rho=True,
                           gc=True, e="", f="")
                try:
                    Polyhedron(p)
                except Exception as e:
                    rec.update(ok=False, err=repr(e))
                emit(rec)
                continue
            if not sc["spans"]:
                continue
            rec.update(pts=gen.encm(p), tri=gen.triangles(p))
            if what == "faces":
                rec.update(faces=[])
                try:
                    rec["faces"] = [dict(c=gen.encm(x.points), n=gen.encv(x.un),
                                         e=[[gen.encv(e.start), gen.encv(e.end)] for e in x.edges])
                                    for x in Polyhedron(p).faces]
                except Exception as e:
                    rec.update(ok=False, err=repr(e))
            else:
                s = np.array(sc["obs"], dtype=float) * h
                rho, gc = gen.physics(rng)
                rec.update(obs=gen.encv(s), rho=gen.enc(rho), gc=gen.enc(gc), grad=True)
                rec["raw"].update(obs=s.tolist(), rho=rho, gc=gc)
                try:
                    st = Station(s)
                    st.compute_gravity(Polyhedron(p), rho, gc, gradient=True)
                    rec.update(G=gen.encv(st.G), T=gen.encm(st.T))
                except Exception as e:
                    rec.update(ok=False, err=repr(e))
            emit(rec)


if __name__ == "__main__":
    main(*sys.argv[1:])
