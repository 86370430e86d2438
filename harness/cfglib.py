"""Configuration files: from the tokens of ConfigGen.tla to YAML and to the nodes of
Config.tla, and what GEEC makes of them."""
import os
import random

import gen
import numpy as np


def written(rng, x):
    """one of the ways to write a number"""
    if rng.random() < 0.7:
        return repr(x)
    return rng.choice(["%.17e" % x, "%.16E" % x, "%+.17g" % x, "%.18g" % x, "%24.17g" % x])


class Maker:
    """turns trees of tokens into Python values; files are written to folder"""

    def __init__(self, rng, folder):
        self.rng, self.folder = rng, folder
        self.files = {}

    def num(self):
        r = self.rng
        return r.choice([r.uniform(-5000, 5000), float(r.randint(-3000, 3000)),
                         r.gauss(0, 1) * 10.0 ** r.randint(-6, 6), r.randint(1, 4000)])

    def rows(self, n=None):
        r = self.rng
        n = n or r.choice([1, 2, 4, 4, 5, 9, 30])
        res = [[self.num() for _ in range(3)] for _ in range(n)]
        if n > 2 and r.random() < 0.5:
            res[r.randrange(n)] = list(res[0])
        return res

    def file(self):
        r = self.rng
        k = len(self.files)
        rows = self.rows(r.choice([1, 2, 3, 4, 6, 12, 300] if r.random() < 0.9 else [3000]))
        name = "f%d%s" % (k, r.choice([".csv", ".txt", "", ".dat"]))
        path = os.path.join(self.folder, name)
        sep = r.choice([",", ",", ", "])
        lines = []
        for row in rows:
            lines.append(sep.join(written(r, x) for x in row))
        if r.random() < 0.1:
            lines.insert(r.randint(0, len(lines)), "")
        nl = r.choice(["\n", "\n", "\r\n"])
        text = nl.join(lines) + r.choice([nl, "", nl + nl])
        with open(path, "w", newline="") as f:
            f.write(text)
        shown = r.choice([path, name, "./" + name])
        self.files[shown] = rows
        return shown

    def default_file(self, default):
        """the file that the packaged default names, if relative"""
        for m in default.get("masses", []):
            p = m.get("file_path")
            if p and not os.path.isabs(p):
                os.makedirs(os.path.join(self.folder, os.path.dirname(p)), exist_ok=True)
                rows = self.rows(5)
                with open(os.path.join(self.folder, p), "w") as f:
                    f.write("".join(",".join(map(repr, r)) + "\n" for r in rows))
                self.files[p] = rows

    def axis(self):
        r = self.rng
        if r.random() < 0.5:
            s, d, n = r.randint(-40, 40) / 4, r.choice([0.25, 0.5, 1, 2, 1.5]), r.randint(1, 5)
            e = s + d * n - r.choice([0, 0, d / 2, d / 4])
            v = [s, e, d]
            if r.random() < 0.15:
                v = r.choice([[e, s, -d], [e, s, d], [s, s, d], [s, e, -d]])
            return [int(x) if x == int(x) and r.random() < 0.5 else x for x in v]
        s, d = round(r.uniform(-10, 10), 2), r.choice([0.1, 0.2, 0.7, 0.05, 1 / 3, -0.1, -0.3])
        return [s, round(s + d * r.uniform(0.5, 4), 3), d]

    def value(self, t):
        if isinstance(t, list):
            if t[0] == "map":
                return {k: self.value(v) for k, v in t[1]}
            return [self.value(v) for v in t[1]]
        r = self.rng
        if not t.startswith("@"):
            return t
        return {
            "@null": lambda: None, "@empty": lambda: "", "@nolist": lambda: [],
            "@true": lambda: True, "@word": lambda: r.choice(["abc", "12 m", "none"]),
            "@num": self.num, "@int": lambda: r.randint(-500, 500),
            "@zero": lambda: r.choice([0, 0.0]), "@gc": lambda: r.uniform(6e-11, 7e-11),
            "@lon": lambda: r.uniform(-180, 180), "@lat": lambda: r.uniform(-90, 90),
            "@axis1": lambda: r.choice([6378000.5, 6377000.0, 6378137, 6371000.0]),
            "@axis2": lambda: r.choice([6356000.25, 6355000.0, 6356752, 6371000.0]),
            "@pts": self.rows,
            "@ints": lambda: [[r.randint(-9, 9) for _ in range(3)] for _ in range(4)],
            "@file": self.file, "@nofile": lambda: "nosuch%d.csv" % r.randrange(9),
            "@grid": lambda: dict(xstart_xend_xstep=self.axis(), ystart_yend_ystep=self.axis(),
                                  zstart_zend_zstep=self.axis()),
            "@grid1": lambda: dict(ystart_yend_ystep=self.axis()),
        }[t]()

    def table(self):
        return [dict(path=p, rows=gen_rows(rows)) for p, rows in self.files.items()]


def gen_rows(rows):
    return [[gen.enc(x) for x in r] for r in rows]


def node(v):
    """a Python value as a node of Config.tla"""
    if v is None:
        return dict(t="null")
    if isinstance(v, bool):
        return dict(t="bool", v=v)
    if isinstance(v, (int, float)):
        return dict(t="num", v=gen.enc(v))
    if isinstance(v, str):
        return dict(t="str", v=v, lc=v.lower())
    if isinstance(v, (list, tuple)):
        return dict(t="list", l=[node(x) for x in v])
    if isinstance(v, dict):
        return dict(t="map", m=[[str(k), node(x)] for k, x in v.items()])
    return dict(t="str", v=str(v), lc=str(v).lower())


def label(crs):
    """what the label of a dataset says"""
    sys_ = str(crs.name.value)
    e = crs.ellps
    org = [0, 0, 0]
    if sys_ == "enu":
        e = crs.enu.ellps
        org = [crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin]
        if crs.ellps is not None and (crs.ellps.semimajor_axis, crs.ellps.semiminor_axis) != (
                e.semimajor_axis, e.semiminor_axis):
            sys_ = "enu of two ellipsoids"
    nan = float("nan")
    return dict(sys=sys_, vd=str(crs.vdatum.value), org=gen.encv(org),
                a=gen.enc(e.semimajor_axis if e is not None else nan),
                b=gen.enc(e.semiminor_axis if e is not None else nan))


def coords(d):
    return [[gen.enc(x) for x in np.atleast_1d(row)] for row in np.asarray(d.coords)]


CRSKEYS = ["ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin",
           "latitude_origin", "altitude_origin", "vdatum"]


def paths(nmass):
    res = []
    for i in range(nmass):
        for k in ["density", "gravity_constant", "points", "file_path"]:
            res.append(["masses", i, k])
        for k in CRSKEYS:
            res.append(["masses", i, "crs", k])
    for k in ["points", "file_path"]:
        res.append(["observers", k])
    for k in ["xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"]:
        res.append(["observers", "grid", k])
    for k in CRSKEYS:
        res.append(["observers", "crs", k])
    return res
