"""Replay histories of conversions (from CrsGen.tla) on GEEC datasets."""
import json
import math
import os
import random
import sys
import warnings

import gen
import watch
import numpy as np
import shim

# ellipsoids of the size of the Earth, by name or by their axes
ELL = ["airy", "clarke1866", "international1924", "bessel", "grs80", "wgs72", "wgs66", "plessis", "everest1830",
       "krassovsky1940", "helmert", "iers2003", "maupertuis", "pz90.11", "wgs84_mean", (6378206.4, 6356583.8),
       (6378137.0, 6356000.0), (6377000.0, 6356752.31424518), (6378137.0, 6356752.31424518),
       (6370000.0, 6370000.0), (6378137.0, 6356752.31414036)]
ORG = [(40.3, 12.6, 150.0), (-71.2, -33.4, 3200.5), (178.9, 64.0, -20.0), (0.0, 0.0, 0.0),
       (0.0, -47.5, 12.0), (123.5, 0.0, 900.0), (3.0, -89.0, 0.0), (-180.0, 5.0, 0.0)]


class Grid:
    """independent reader of a geoid grid: raw values around a point"""

    def __init__(self, path):
        with open(path, "rb") as f:
            data = f.read()
        self.off = self.scale = None
        pos = data.index(b"\n") + 1
        while data[pos:pos + 1] == b"#":
            end = data.index(b"\n", pos)
            w = data[pos:end].split()
            if w[1] == b"Offset":
                self.off = float(w[2])
            if w[1] == b"Scale":
                self.scale = float(w[2])
            pos = end + 1
        end = data.index(b"\n", pos)
        self.w, self.h = map(int, data[pos:end].split())
        pos = data.index(b"\n", end + 1) + 1
        self.v = np.frombuffer(data, dtype=">u2", count=self.w * self.h, offset=pos
                               ).reshape(self.h, self.w)

    def cell(self, lon, lat):
        if not abs(lat) <= 90 or not math.isfinite(lon):
            return [float("nan")] * 4
        x = (lon % 360) / 360 * self.w
        y = (90 - lat) / 180 * (self.h - 1)
        x0, y0 = math.floor(x), min(math.floor(y), self.h - 2)
        return [self.off + self.scale * int(self.v[y0 + j, (x0 + i) % self.w])
                for i in (0, 1) for j in (0, 1)]


def label(crs):
    """what the label of a dataset says"""
    sys_ = str(crs.name.value)
    e = crs.ellps
    org = [0, 0, 0]
    if sys_ == "enu":
        e = crs.enu.ellps
        if crs.ellps is None or (crs.ellps.semimajor_axis, crs.ellps.semiminor_axis) != (
                e.semimajor_axis, e.semiminor_axis):
            # as CRS itself demands of a new label
            e = None
        org = [crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin]
    nan = float("nan")
    return dict(sys=sys_, vd=str(crs.vdatum.value), org=gen.encv(org),
                a=gen.enc(e.semimajor_axis if e is not None else nan),
                b=gen.enc(e.semiminor_axis if e is not None else nan))


def lonlat(rng, vd, wild):
    """a geographic point; wild: longitudes out of -180..180"""
    lat = rng.choice([rng.uniform(-85, 85), rng.randint(-85, 85), rng.uniform(-89.99, 89.99), 0.0])
    lon = rng.choice([rng.uniform(3, 177), float(rng.randint(3, 177))]) * rng.choice([-1, 1])
    lon = rng.choice([lon, lon, lon, 0.0, 180.0, -180.0, 90.0, 1e-9, -179.9999999])
    lat = rng.choice([lat] * 8 + [-89.99, 89.9999999, 89.9, -89.7])
    if wild:
        lon += 360 * rng.choice([0, 1, -1, 2, -2, 3, 7, -11, 100] + [-5000, 10000] * (wild > 1))
        lon = rng.choice([lon, lon, lon, 181.0, -180.5, 360.0, 540.0, -540.0, 719.5,
                          180.00000000000003])
    h = rng.choice([rng.uniform(-11000, 9000), rng.uniform(-30000, 40000), 0.0, 150.0, -0.5, rng.uniform(-50, 50)])
    return [lon, lat, h]


def points(rng, k, wild):
    n = rng.randint(1, 5) if rng.random() < 0.985 else rng.choice([40, 150, 400])
    if k["sys"] == "ellps":
        return [lonlat(rng, k["vd"], wild) for _ in range(n)]
    if k["sys"] == "enu":
        return [[rng.uniform(-20000, 20000), rng.uniform(-20000, 20000), rng.uniform(-5000, 5000)]
                if rng.random() < 0.8 else [0.0, rng.choice([0.0, 500.0]), 200.0]
                for _ in range(n)]
    if k["sys"] == "ecef":
        res = []
        for _ in range(n):
            lon, lat, h = (math.radians(v) for v in lonlat(rng, "ellps", False))
            r = 6.37e6 + rng.uniform(-8000, 8000)
            r = r - 2.1e4 * math.sin(lat) ** 2
            res.append([r * math.cos(lat) * math.cos(lon), r * math.cos(lat) * math.sin(lon),
                        r * math.sin(lat)])
        return res
    return [[rng.choice([rng.uniform(-400, 400), rng.randint(-500, 500), rng.gauss(0, 1e6)])
             for _ in range(3)] for _ in range(n)]


def main(out, path, seed, k, n):
    scratch = os.getcwd()
    shim.setup(scratch, os.environ.get("GEEC_REPO", "/repo"))
    warnings.simplefilter("ignore")
    from loguru import logger

    logger.remove()
    import geec.config
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer
    import pygeodesy as pg
    import yaml

    repo = os.environ.get("GEEC_REPO", "/repo")
    grids = {"egm84": Grid(repo + "/geec/data/geoids/egm84-15.pgm")}
    for vd, f in (("egm96", "egm96-5.pgm"), ("egm2008", "egm2008-2_5.pgm")):
        if os.path.exists(repo + "/geec/data/geoids/" + f):
            grids[vd] = Grid(repo + "/geec/data/geoids/" + f)

    real = os.path.join(repo, "geec/data/geoids")
    geoids = {v: pg.GeoidKarney(os.path.join(real, f)) for v, f in
              (("egm84", "egm84-15.pgm"), ("egm96", "egm96-5.pgm"), ("egm2008", "egm2008-2_5.pgm"))}

    def undulation(vd, q):
        """as interpolated in its grid: a certificate (see CrsTrace!UndOk)"""
        lon, lat = q[0], q[1]
        if not abs(lat) <= 90 or not math.isfinite(lon):
            return float("nan")
        if not -180 <= lon <= 180:
            lon = (lon + 180) % 360 - 180
        return geoids[vd](pg.ellipsoidalKarney.LatLon(lat, lon))

    def state(d):
        return dict(crs=label(d.crs), pts=gen.encm(d.coords),
                    cols=[gen.encv(c) for c in (d.lon, d.lat, d.alt)])

    def run(rng, scn, tr, emit):
        specs = []
        for kd in scn["kinds"]:
            wild = scn.get("wild", True) and rng.random() < (0.5 if len(scn["kinds"]) > 1 else 0.3)
            # far too many turns for a position to the micrometre
            wild = wild * (1 + all(o["op"] == "lon180" for o in scn["ops"]))
            ell = "wgs84" if kd["ell"] == 1 else rng.choice(ELL)
            specs.append((kd, points(rng, kd, wild), ell, ORG[kd["org"] - 1]))
        rec = dict(id=tr + ".0", trace=tr, op="begin", ok=True, err="", after=[],
                   raw=dict(datasets=[dict(kind=s[0], points=s[1], ellipsoid=s[2], origin=s[3])
                                      for s in specs], ops=scn["ops"]))
        direct = rng.random() < 0.4
        objs = []
        masses = []
        try:
            if direct:
                C = geec.crs
                for kd, pts, ell, org in specs:
                    e = C.Ellipsoid(name=ell) if isinstance(ell, str) else C.Ellipsoid(
                        semimajor_axis=ell[0], semiminor_axis=ell[1])
                    name = C.CRSEnum(kd["sys"])
                    if kd["sys"] in ("ecef", "cart"):
                        crs = C.CRS(name=name)
                    elif kd["sys"] == "ellps":
                        crs = C.CRS(name=name, ellps=e, vdatum=C.VDatumEnum(kd["vd"]))
                    else:
                        crs = C.CRS(name=name, ellps=e, vdatum=C.VDatumEnum(kd["vd"]),
                                    enu=C.ENU(ellps=e, longitude_origin=org[0],
                                              latitude_origin=org[1], altitude_origin=org[2]))
                    objs.append(geec.dataset.Dataset(coords=np.array(pts, dtype=float), crs=crs))
            else:
                def crs_cfg(kd, ell, org):
                    named = isinstance(ell, str)
                    return dict(ref=kd["sys"], name=ell if named else "",
                                semimajor_axis=None if named else ell[0],
                                semiminor_axis=None if named else ell[1],
                                longitude_origin=org[0], latitude_origin=org[1],
                                altitude_origin=org[2], vdatum=kd["vd"])

                cfg = dict(masses=[], observers={})
                for i, (kd, pts, ell, org) in enumerate(specs):
                    x = dict(points=pts, file_path=None, crs=crs_cfg(kd, ell, org))
                    if i == 0 and len(specs) > 1 or len(specs) == 1 and rng.random() < 0.3:
                        cfg["observers"] = x
                    else:
                        cfg["masses"].append(dict(x, density=1000.0, gravity_constant=6.67e-11))
                if not cfg["masses"]:
                    del cfg["masses"]
                if not cfg["observers"]:
                    del cfg["observers"]
                p = os.path.join(scratch, "c.yaml")
                with open(p, "w") as f:
                    yaml.safe_dump(cfg, f)
                conf = geec.config.setup(p)
                if "observers" in cfg:
                    objs.append(geec.observer.get_observer(conf))
                if "masses" in cfg:
                    masses = geec.mass.get_masses(conf)
                    objs += masses

            def data(i):
                return objs[i] if direct else objs[i].dataset

            def states():
                return [state(data(i)) for i in range(len(objs))]

            rec["after"] = last = states()
        except Exception as e:
            rec.update(ok=False, err=repr(e))
            emit(rec)
            return
        emit(rec)
        for j, o in enumerate(scn["ops"]):
            i = o["ds"] - 1
            org = ORG[o["org"] - 1]
            tgt = [i]
            bulk = o["via"] == 3 and any(objs[i] is m for m in masses)
            if bulk:
                tgt = [t for t, x in enumerate(objs) if any(x is m for m in masses)]
            cells = []
            for t in tgt:
                d = data(t)
                vd = str(d.crs.vdatum.value)
                cells.append([dict(cell=gen.encv(grids[vd].cell(q[0], q[1])) if vd in grids else [],
                                   und=gen.enc(undulation(vd, q))) for q in d.coords]
                             if o["op"] == "height" and vd in geoids
                             and str(d.crs.name.value) == "ellps" else [])
            rec = dict(id="%s.%d" % (tr, j + 1), trace=tr, op=o["op"], org=gen.encv(org),
                       ds=[t + 1 for t in tgt], cells=cells, ok=True, err="", scenario=o)
            args = org if o["op"] == "enu" else ()
            meth = {"ecef": "to_ecef", "wgs84": "to_wgs84", "enu": "to_enu",
                    "lon180": "to_lon180", "height": "to_ellipsoid_height"}[o["op"]]
            try:
                if bulk:
                    getattr(geec.mass, meth)(masses, *args)
                elif o["via"] == 2 and not direct:
                    getattr(objs[i], meth)(*args)
                else:
                    getattr(data(i), meth)(*args)
            except Exception as e:
                rec.update(ok=False, err=repr(e))
            try:
                rec["after"] = states()
            except Exception as e:
                rec.update(ok=False, op="state", err=repr(e), after=last)
            emit(rec)
            if rec["op"] == "state":
                return
            last = rec["after"]

    with open(path) as f:
        scns = json.load(f)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        for i in range(int(k), len(scns), int(n)):
            run(random.Random(int(seed) * 100003 + i), scns[i], "c%d" % i,
                emit)


if __name__ == "__main__":
    main(*sys.argv[1:])
