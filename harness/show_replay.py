"""What GEEC shows of bodies and stations (pictures, prints), and what looking changes."""
import contextlib
import io
import random
import sys

import gen
import numpy as np
import watch
from geeclib import engine, variant
from shapes_replay import relabel


def pictures():
    """a renderer that keeps the figures instead of opening a browser"""
    import plotly.io as pio
    from plotly.io._base_renderers import ExternalRenderer

    shown = []

    class Keep(ExternalRenderer):
        def render(self, fig_dict):
            shown.append(fig_dict)

    pio.renderers["keep"] = Keep()
    pio.renderers.default = "keep"
    return shown


def segments(fig):
    """the line segments that a figure draws, and how many other things it draws"""
    seg, other = [], 0
    for t in fig["data"]:
        # drawn unless told otherwise; lines unless told otherwise (up to 20 points)
        if t.get("type") != "scatter3d" or "lines" not in t.get("mode", "lines+markers") \
                or t.get("visible", True) is not True:
            other += 1
            continue
        p = list(zip(t["x"], t["y"], t["z"]))
        for a, b in zip(p, p[1:]):
            if None not in a and None not in b:
                seg.append([gen.encv(a), gen.encv(b)])
    return seg, other


class Shown:
    def __init__(self, **fields):
        self.__dict__.update(fields)


def printed(obj):
    """the fields in the text that print(obj) gives; None: abridged by numpy"""
    with contextlib.redirect_stdout(io.StringIO()) as f:
        print(obj)
    text = f.getvalue().replace("\u2502", " ")
    if "..." in text:
        return None
    names = {n: n for n in ("int32", "int64", "float32", "float64")}
    names.update({n: Shown for n in ("Polyhedron", "Face", "Edge", "Station")})
    names.update(array=lambda a, dtype=None: a, nan=float("nan"), inf=float("inf"))
    return eval(" ".join(text.split()), {"__builtins__": {}}, names)


def described(body):
    return [dict(c=gen.encm(f.points), n=gen.encv(f.un),
                 e=[[gen.encv(e.start), gen.encv(e.end)] for e in f.edges],
                 s=[int(i) + 1 for i in f.simplex], nb=[int(i) + 1 for i in f.neighbors])
            for f in body.faces]


def said(view):
    if view is None:
        return dict(full=False, pts=[], faces=[])
    return dict(full=True, pts=gen.encm(view.points),
                faces=[dict(c=gen.encm(f.points), n=gen.encv(f.un),
                            e=[[gen.encv(e.start), gen.encv(e.end)] for e in f.edges],
                            s=[int(i) + 1 for i in f.simplex],
                            nb=[int(i) + 1 for i in f.neighbors]) for f in view.faces])


def main(rng, emit, seed, n):
    Polyhedron, Station = engine()
    shown = pictures()
    for i in range(n):
        kind, p, exact = gen.body(rng)
        m, p, obs = gen.place(rng, p, [gen.station(rng, p, gen.triangles(p), "out")[1]
                                       for _ in range(2)])
        tri = gen.triangles(p)
        if rng.random() < 0.5:
            p, tri, _ = relabel(rng, p, tri)
        looks = [rng.choice(["plot", "print", "print"]) for _ in range(rng.randint(1, 4))]
        rec = dict(id="w%d.%d" % (seed, i), kind="%s/%s" % (kind, m), pts=gen.encm(p), tri=tri,
                   ok=True, err="", looks=[], faces=[], after=[], body=[], fields=[],
                   raw=dict(points=p.tolist(), obs=[o.tolist() for o in obs], looks=looks))
        try:
            given = variant(rng, p)
            body = Polyhedron(given)
            rec["faces"] = described(body)
            where = np.array(obs[0], dtype=float)
            st = Station(where.copy())
            phys = gen.physics(rng)
            grad = rng.random() < 0.5
            body2 = Polyhedron(variant(rng, p))
            fresh = Station(where.copy())
            for look in looks:
                st.compute_gravity(body, phys[0], phys[1], gradient=grad)
                fresh.compute_gravity(body2, phys[0], phys[1], gradient=grad)
                del shown[:]
                r = dict(look=look, figs=0, seg=[], other=0, body=said(None),
                         coord=[], G=[], coord0=gen.encv(where), G0=gen.encv(st.G))
                if look == "plot":
                    body.plot()
                    r["figs"] = len(shown)
                    for f in shown:
                        seg, other = segments(f)
                        r["seg"] += seg
                        r["other"] += other
                else:
                    r["body"] = said(printed(body))
                    v = printed(st)
                    r.update(coord=gen.encv(v.coord), G=gen.encv(v.G))
                rec["looks"].append(r)
            rec["after"] = described(body)
            rec["body"] = gen.encm(body.points)
            # the station and the body, looked at; and others, not
            rec["fields"] = [[gen.encv(np.concatenate([st.coord, st.G, st.T.flatten()])),
                              gen.encv(np.concatenate([fresh.coord, fresh.G,
                                                       fresh.T.flatten()]))]]
        except Exception as e:
            rec.update(ok=False, err=repr(e))
        emit(rec)


if __name__ == "__main__":
    out, seed, n = sys.argv[1:]
    with open(out, "w") as fo:
        main(random.Random(int(seed)), watch.emitter(fo), int(seed), int(n))
