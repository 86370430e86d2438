"""Replay sessions of the program (from RunGen.tla): runs, results, files."""
import ast
import copy
import csv
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import stat
import subprocess
import sys
import warnings

import gen
import numpy as np
import shim
import watch
from cfglib import gen_rows, node
from crs_replay import Grid

AXES = {"wgs84": (6378137.0, 6356752.31424518), "airy": (6377563.396, 6356256.909),
        "clarke1866": (6378206.4, 6356583.8), "bessel": (6377397.155, 6356078.963),
        "international1924": (6378388.0, 6356911.946)}
GEO = ("cli.py", "api.py", "mass.py", "observer.py", "dataset.py", "crs.py", "config.py")
CSV = ("geec/api.py", "pandas/io/formats/csvs.py", "pandas/io/common.py",
       "pandas/io/formats/format.py")
TPL = ("geec/cli.py", "geec/api.py", "pathlib.py", "shutil.py", "tempfile.py")


# -- geodesy, only to place scenes and to find hulls ------------------------------
def ecef(p, a, b):
    ln, lt, h = np.radians(p[:, 0]), np.radians(p[:, 1]), p[:, 2]
    n = a * a / np.sqrt((a * np.cos(lt)) ** 2 + (b * np.sin(lt)) ** 2)
    return np.stack([(n + h) * np.cos(lt) * np.cos(ln), (n + h) * np.cos(lt) * np.sin(ln),
                     (n * b * b / (a * a) + h) * np.sin(lt)], 1)


def geodetic(q, a, b):
    e2 = 1 - b * b / (a * a)
    r = np.hypot(q[:, 0], q[:, 1])
    lt = np.arctan2(q[:, 2], r * (1 - e2))
    for _ in range(30):
        n = a / np.sqrt(1 - e2 * np.sin(lt) ** 2)
        lt = np.arctan2(q[:, 2] + e2 * n * np.sin(lt), r)
    n = a / np.sqrt(1 - e2 * np.sin(lt) ** 2)
    h = r * np.cos(lt) + q[:, 2] * np.sin(lt) - a * a / n
    return np.stack([np.degrees(np.arctan2(q[:, 1], q[:, 0])), np.degrees(lt), h], 1)


def axes3(o):
    ln, lt = np.radians(o[0]), np.radians(o[1])
    return np.array([[-np.sin(ln), np.cos(ln), 0],
                     [-np.sin(lt) * np.cos(ln), -np.sin(lt) * np.sin(ln), np.cos(lt)],
                     [np.cos(lt) * np.cos(ln), np.cos(lt) * np.sin(ln), np.sin(lt)]])


def from_enu(p, o, a, b):
    return ecef(np.array([o], float), a, b) + p @ axes3(o)


def to_enu(q, o, a, b):
    return (q - ecef(np.array([o], float), a, b)) @ axes3(o).T


def own_files():
    """in a forked child: offsets of open files (grids of undulations) are not shared with
    the parent any more"""
    for name in os.listdir("/proc/self/fd"):
        fd = int(name)
        try:
            if fd > 2 and stat.S_ISREG(os.fstat(fd).st_mode):
                flags = fcntl.fcntl(fd, fcntl.F_GETFL) & (os.O_ACCMODE | os.O_APPEND)
                new = os.open("/proc/self/fd/%d" % fd, flags)
                os.lseek(new, os.lseek(fd, 0, os.SEEK_CUR), os.SEEK_SET)
                os.dup2(new, fd, inheritable=os.get_inheritable(fd))
                os.close(new)
        except OSError:
            pass


class Killer:
    """act at the n-th line executed in some files"""

    def __init__(self, n, files, act):
        self.n, self.files, self.act = n, files, act

    def __enter__(self):
        sys.settrace(self.call)

    def __exit__(self, *a):
        sys.settrace(None)
        return False

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.endswith(self.files) else None

    def line(self, frame, event, arg):
        if event == "line" and self.act:
            self.n -= 1
            if self.n <= 0:
                act, self.act = self.act, None
                sys.settrace(None)
                act()
        return self.line


class Effects:
    """act at the n-th change to some folders (files opened to be written, renamed, removed, folders
    made): just before it, or, if after, at the next line of Python, when it is done"""
    now = None
    hooked = False

    def __init__(self, n, after, folders, act):
        self.n, self.after, self.folders, self.act = n, after, folders, act
        self.armed = False
        if not Effects.hooked:
            Effects.hooked = True
            sys.addaudithook(Effects.hook)

    def __enter__(self):
        Effects.now = self
        if self.after:
            sys.settrace(self.trace)

    def __exit__(self, *a):
        Effects.now = None
        if self.after:
            sys.settrace(None)
        return False

    @staticmethod
    def hook(event, args):
        me = Effects.now
        if me is None or event not in ("open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate",
                                       "os.link", "os.symlink"):
            return
        if event == "open" and not args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return
        try:
            where = os.path.abspath(os.fspath(args[1 if event in ("os.rename", "os.link", "os.symlink") else 0]))
        except TypeError:
            return
        if isinstance(where, bytes) or not where.startswith(me.folders) or "/.config" in where:
            return
        me.n -= 1
        if me.n == 0:
            if me.after:
                me.armed = True
            else:
                Effects.now = None
                me.act()

    def trace(self, frame, event, arg):
        if self.armed:
            return self.line
        # (most of Python is far from any file)
        return self.line if frame.f_code.co_filename.endswith(CSV + TPL) else None

    def line(self, frame, event, arg):
        if self.armed and event == "line":
            Effects.now = None
            sys.settrace(None)
            self.act()
        return self.line


def shape(rng, earth):
    """points of a body; no three on a line of its surface if they are to be converted"""
    while True:
        k, p, exact = gen.body(rng)
        if not earth:
            return p
        size = (p.max(0) - p.min(0)).max()
        p = p + np.array([[rng.gauss(0, 0.02) * size for _ in range(3)] for _ in p])
        if not gen.fat(p, 1e-2):
            continue
        for t in gen.triangles(p):
            a, b, c = (p[i - 1] for i in t)
            l = max(np.linalg.norm(x) for x in (a - b, b - c, c - a))
            if np.linalg.norm(np.cross(b - a, c - a)) < 1e-3 * l * l:
                break
        else:
            return p


def shuffled(rng, t):
    """the same tree, keys in another order"""
    if isinstance(t, dict):
        ks = list(t)
        rng.shuffle(ks)
        return {k: shuffled(rng, t[k]) for k in ks}
    if isinstance(t, list) and t and isinstance(t[0], dict):
        return [shuffled(rng, x) for x in t]
    return t


def interrupt():
    raise KeyboardInterrupt("injected")


# -- what the program says -------------------------------------------------------
KEYS = ("density", "gravity_constant", "points", "file_path", "ref", "name", "semimajor_axis", "semiminor_axis",
        "longitude_origin", "latitude_origin", "altitude_origin", "vdatum", "xstart_xend_xstep",
        "ystart_yend_ystep", "zstart_zend_zstep")


def logged(text):
    """parameters in a log: those of each mass body, those of the observers"""
    masses, obs, part = [], {}, None
    for line in text.splitlines():
        if " - " in line and line[:4].isdigit():
            line = line.split(" - ", 1)[1]
        line = line.strip()
        if line in ("Mass Bodies", "Observers"):
            part = line
            continue
        key, colon, val = line.partition(":")
        key = key.strip()
        if part is None or not colon or key not in KEYS:
            continue
        val = re.sub(r"\s+(kg m-3|m3 kg-1 s-2)$", "", val.strip())
        try:
            val = ast.literal_eval(val)
        except Exception:
            pass
        if part == "Observers":
            obs.setdefault(key, val)
            continue
        if not masses or key in masses[-1]:
            masses.append({})
        masses[-1][key] = val
    return (part is not None, [[[k, node(v)] for k, v in m.items()] for m in masses],
            [[k, node(v)] for k, v in obs.items()])


def heard(folder):
    res = ""
    for n in sorted(os.listdir(folder)):
        with open(os.path.join(folder, n), errors="replace") as f:
            res += f.read()
    return res


def question(k, out):
    """what must come of it, the arguments, what the answer contains"""
    import geec

    v = "version: %s" % geec.__version__
    answers = [(["--version"], [v]), (["--version", "run", out], [v]), (["--log"], ["@log"]),
               (["--log", "run", out], ["@log"]), (["--help"], ["run", "config", "--version", "--log"]),
               (["--help", "run", out], ["run", "config"]), (["run", "--help"], ["--config", "--gradient"]),
               (["run", out, "--help"], ["--config", "--gradient"]), (["config", "--help"], ["--output"]),
               (["config", "--output", out, "--help"], ["--output"])]
    refused = [[], ["run"], ["run", out, "more"], ["run", out, "--gradients"], ["run", out, "--config"],
               ["run", out, "--gradient=1"], ["Run", out], [out], ["--verbose", "run", out], ["config", "more"],
               ["config", "--output"], ["config", "--outputs", out], ["run", out, "--density", "1"],
               ["topo", out]]
    k = (k - 1) % (len(answers) + len(refused))
    if k < len(answers):
        return ("answer",) + answers[k]
    return "refuse", refused[k - len(answers)], []


def says(text, log, target, answer):
    """see Report.tla"""
    name = re.compile(re.escape(target) + r"(?![\w./])")
    saved = [bool(name.search(x)) for x in text.splitlines()
             if re.search(r"\bsaved?\b", x, re.I) and re.search(r"\.(csv|yaml)\b", x)]
    ok, masses, obs = logged(log)
    return dict(heard=True, target=bool(name.search(text)), saved=saved,
                answer=all(x in text for x in answer), logged=ok, masses=masses, obs=obs)


SILENT = dict(heard=False, target=False, saved=[], answer=False, logged=False, masses=[], obs=[])


def table(path):
    """the results in a file"""
    try:
        with open(path, newline="") as f:
            rows = list(csv.reader(f))
        return dict(ok=True, names=rows[0], units=rows[1],
                    rows=[[gen.enc(float(x)) for x in r] for r in rows[2:]])
    except Exception as e:
        return dict(ok=False, names=[], units=[], rows=[], why=repr(e))


class Session:
    def __init__(self, rng, scratch, default, geoids, grid84):
        self.rng, self.default = rng, default
        self.geoids, self.grid84 = geoids, grid84
        self.root = os.path.join(scratch, "s")
        shutil.rmtree(self.root, ignore_errors=True)
        self.cwd, self.abs = (os.path.join(self.root, x) for x in ("cwd", "abs"))
        self.inp = os.path.join(self.root, "in")
        for d in (self.cwd, self.abs, self.inp):
            os.makedirs(d)
        self.home = os.environ["HOME"]
        shutil.rmtree(self.home, ignore_errors=True)
        os.makedirs(self.home)
        self.userdir = os.path.join(self.home, ".config", "geec")
        os.makedirs(self.userdir)
        self.userfile = os.path.join(self.userdir, "config.yaml")
        os.chdir(self.cwd)
        # files that must not matter
        for d in (self.cwd, self.inp):
            for n in ("config.yaml", "config_default.yaml", "geec.yaml", ".env"):
                with open(os.path.join(d, n), "w") as f:
                    f.write("GEEC_DENSITY=5\n" if n == ".env" else
                            "masses:\n  - density: 77777.0\nobservers:\n  points: [[7, 7, 7]]\n")
        self.files = {}
        self.nf = 0

    def snapshot(self):
        res = []
        for base, d in (("cwd", self.cwd), ("abs", self.abs), ("home", self.home)):
            for folder, sub, names in os.walk(d):
                if folder == self.userdir:
                    continue
                for n in names:
                    p = os.path.join(folder, n)
                    with open(p, "rb") as f:
                        res.append([base + "/" + os.path.relpath(p, d),
                                    hashlib.sha1(f.read()).hexdigest()])
        return sorted(res)

    def where(self, out):
        return dict(cwd=self.cwd, abs=self.abs, home=self.home)[out["base"]]

    def request(self, out):
        """the path as typed"""
        rel = (out["dirs"] + "/" if out["dirs"] else "") + out["stem"] + out["suf"]
        r = self.rng
        if out["base"] == "cwd":
            return r.choice(["", "", "./"]) + rel
        if out["base"] == "abs":
            return os.path.join(self.abs, rel)
        return "~/" + rel

    def file(self, rows):
        r = self.rng
        self.nf += 1
        name = "f%d%s" % (self.nf, r.choice([".csv", ".txt", ""]))
        with open(os.path.join(self.inp, name), "w") as f:
            f.write("".join(r.choice([",", ",", ", "]).join(repr(x) for x in row) + "\n"
                            for row in rows))
        shown = r.choice([os.path.join(self.inp, name), "../in/" + name])
        self.files[shown] = rows
        return shown

    def plain(self):
        """a simple configuration without fault"""
        c = dict(ref="cart", name=None, semimajor_axis=None, semiminor_axis=None, longitude_origin=None,
                 latitude_origin=None, altitude_origin=None)
        box = [[float(x), float(y), float(z)] for x in (0, 1) for y in (0, 1) for z in (0, 1)]
        return dict(masses=[dict(points=box, file_path=None, density=2670.0, gravity_constant=6.67408e-11,
                                 crs=dict(c, vdatum=None))],
                    observers=dict(points=[[3.0, 0.5, 0.5]], file_path=None, crs=c))

    # -- one configuration -----------------------------------------------------
    def source(self, src, rows):
        r = self.rng
        decoy = [[r.uniform(-9, 9) for _ in range(3)] for _ in range(6)]
        d = dict(points=None, file_path=None)
        if src in ("points", "both"):
            d["points"] = rows
            d["file_path"] = self.file(decoy) if src == "both" else r.choice([None, ""])
        elif src == "file":
            d["points"] = r.choice([None, []])
            d["file_path"] = self.file(rows)
        return d

    def crs(self, m, place):
        r = self.rng
        c = dict(ref=m["ref"], name=None, semimajor_axis=None, semiminor_axis=None,
                 longitude_origin=None, latitude_origin=None, altitude_origin=None)
        if c["ref"] == "@null":
            c["ref"] = None
        a, b = AXES["wgs84"]
        if m["ell"] == "@axes":
            a, b = r.choice([(6378000.5, 6356000.25), (6377000.0, 6355000.5), (6378137.0, 6356752.0)])
            c["semimajor_axis"], c["semiminor_axis"] = a, b
        elif m["ell"] != "@null":
            c["name"] = m["ell"]
            a, b = AXES[m["ell"]]
        o = [place[0] + r.uniform(-0.05, 0.05), place[1] + r.uniform(-0.05, 0.05),
             place[2] + r.uniform(-100, 100)]
        if r.random() < 0.3:
            o = [float(round(x)) for x in o[:2]] + [int(o[2])]
        if m["ref"] == "enu" or r.random() < 0.2:
            c["longitude_origin"], c["latitude_origin"], c["altitude_origin"] = o
        return c, a, b, o

    def given(self, q, ref, a, b, o, wrap):
        """Earth-centred points as they are given in a reference system"""
        ref = (ref or "ellps").lower()
        if ref == "@null" or ref == "ellps":
            p = geodetic(q, a, b)
            p[:, 0] += wrap
            return p
        return to_enu(q, o, a, b) if ref == "enu" else q

    def positions(self, rows, c, a, b, o, vd):
        """where they are, and the undulations that count"""
        p = np.array(rows, dtype=float)
        ref = (c["ref"] or "ellps").lower()
        und, cell = [], []
        if ref == "ellps":
            vd = {"egm08": "egm2008"}.get((vd or "ellps").lower(), (vd or "ellps").lower())
            if vd in self.geoids:
                import pygeodesy as pg

                for x in p:
                    ln = (x[0] + 180) % 360 - 180
                    und.append(float(self.geoids[vd].height(float(x[1]), float(ln))))
                    cell.append(self.grid84.cell(ln, x[1]) if vd == "egm84" else [])
                p = p.copy()
                p[:, 2] += und
            return ecef(p, a, b), und, cell
        return (from_enu(p, o, a, b) if ref == "enu" else p), und, cell

    def rho(self, t):
        r = self.rng
        return dict(std=2670.0, neg=-430.5, tiny=1e-9 * r.random(), any=r.uniform(1, 5000),
                    zero=0)[t]

    def scene(self, step):
        """configuration as a tree, and per mass the hull where it is"""
        r = self.rng
        earth = step["scene"] == "earth"
        place = [r.uniform(5, 175) * r.choice([-1, 1]), r.uniform(-75, 75), r.uniform(-2000, 3000)]
        wa, wb = AXES["wgs84"]
        size = 10 ** r.uniform(1.7, 3.6) if earth else 2.0 ** r.randint(-3, 9)
        fault = step["fault"]
        masses, bodies = [], []
        clouds = []
        kept = []
        for i, m in enumerate(step["masses"] if step["obs"]["n"] < 100 else step["masses"][:1]):
            dup = m.get("dup") if kept and fault not in ("few", "flat") else ""
            if dup == "all":
                masses.append(copy.deepcopy(masses[-1]))
                bodies.append(copy.deepcopy(bodies[-1]))
                continue
            p = shape(r, earth)
            p = p - p.mean(0) if earth else p
            p = p / (p.max(0) - p.min(0)).max() * size if earth else p * size
            p = p + np.array([r.randint(-2, 2) * size for _ in range(3)])
            clouds.append(p)
            q = from_enu(p, place, wa, wb) if earth else p
            c, a, b, o = self.crs(m, place)
            c["vdatum"] = None if m["vd"] == "@null" else m["vd"]
            g = self.given(q, m["ref"], a, b, o, m["wrap"])
            if i == 0 and fault == "few":
                g = g[:r.randint(1, 3)]
            if i == 0 and fault == "flat":
                g = np.array([[x, y, 2] for x in range(3) for y in range(2)]) * 1.0
                if (c["ref"] or "ellps") not in ("cart", "ecef"):
                    c["ref"] = "ecef"
            rows = g.tolist()
            if dup:
                rows, c, a, b, o = copy.deepcopy(kept[-1])
                if dup == "numbers" and (c["ref"] or "ellps").lower() in ("ellps", "enu"):
                    # another ellipsoid or vertical datum; another origin
                    c2, a, b, _ = self.crs(dict(m, ref=c["ref"] or "@null"), place)
                    c2.update({k: c[k] for k in c if k.endswith("_origin")},
                              vdatum=None if m["vd"] == "@null" else m["vd"])
                    c = c2
                    if (c["ref"] or "").lower() == "enu":
                        o = [o[0] + r.choice([0, 0.01, -0.002]), o[1] + r.choice([0, 0.01, 0.003]),
                             o[2] + r.choice([0, 50])]
                        c["longitude_origin"], c["latitude_origin"], c["altitude_origin"] = o
            elif not earth and all(x == int(x) for row in rows for x in row) and r.random() < 0.5:
                rows = [[int(x) for x in row] for row in rows]
            kept.append((rows, c, a, b, o))
            d = self.source(m["src"], rows)
            d.update(density=self.rho(m["rho"]), crs=c,
                     gravity_constant=dict(std=6.67408e-11, any=r.uniform(1e-11, 1e-10), one=1)[m["gc"]])
            pos, und, cell = self.positions(rows, c, a, b, o, c["vdatum"])
            try:
                tri = gen.triangles(pos)
            except Exception:
                tri = []
            bodies.append(dict(tri=tri, und=gen.encv(und), cell=[gen.encv(x) for x in cell]))
            masses.append(d)
        ob = step["obs"]
        c, a, b, o = self.crs(ob, place)
        n = ob["n"]
        st = []
        for _ in range(n):
            p = r.choice(clouds)
            st.append(gen.station(r, p, gen.triangles(p), r.choice(
                ["out", "out", "in", "axis", "foot", "out"] + ["mid"] * (not earth or size < 700)
                + ["far"] * (not earth or size < 150)))[1])
        if n > 2 and r.random() < 0.3:
            st[-1] = st[0]
        st = np.array(st)
        if not earth and r.random() < 0.3:
            st = np.round(st)
        grid = None
        if ob["src"] == "grid":
            cnt = r.choice([[10, 5, 3], [1, 12, 12]]) if n >= 100 else r.choice([[2, 3, 1], [3, 1, 2], [1, 1, 1], [2, 2, 2], [4, 2, 1], [1, 5, 1]])
            lo = self.given(from_enu(np.array([[0.0, 0.0, 3.1 * size]]), place, wa, wb),
                            ob["ref"], a, b, o, ob["wrap"])[0] if earth else \
                np.array([r.uniform(-3, 3) * size, r.uniform(-3, 3) * size, 3.1 * size])
            ref = (c["ref"] or "ellps").lower()
            ax = []
            for i in range(3):
                s = lo[i] if r.random() < 0.7 or ref != "cart" or earth else float(round(lo[i]))
                d = size * r.uniform(0.2, 1) if not (ref == "ellps" and i < 2) else r.choice([0.01, 0.005, 1 / 64])
                ax.append([float(s), float(s + d * (cnt[i] - 0.5)), float(d)])
            grid = dict(zip(("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), ax))
            d = dict(points=r.choice([None, []]), file_path=r.choice([None, ""]))
        else:
            q = from_enu(st, place, wa, wb) if earth else st
            if fault == "vertex":
                mm = [m for m in masses if (m["crs"]["ref"] or "") == "cart"]
                if mm and (c["ref"] or "") == "cart":
                    q = q.copy()
                    v = mm[0]["points"] or self.files[mm[0]["file_path"]]
                    q[r.randrange(n)] = v[bodies[masses.index(mm[0])]["tri"][0][0] - 1] \
                        if bodies[masses.index(mm[0])]["tri"] else v[0]
            rows = self.given(q, ob["ref"], a, b, o, ob["wrap"]).tolist()
            if not earth and all(x == int(x) for row in rows for x in row) and r.random() < 0.5:
                rows = [[int(x) for x in row] for row in rows]
            d = self.source(ob["src"], rows)
        d["crs"] = c
        d["grid"] = grid or dict(xstart_xend_xstep=[0, 3, 1], ystart_yend_ystep=[0, 3, 1],
                                 zstart_zend_zstep=[5, 6, 1])
        cfg = dict(masses=masses, observers=d)
        m = r.choice(masses)
        if fault == "badref":
            r.choice([m, d])["crs"]["ref"] = r.choice(["nosuch", "utm", "ellipse", 3])
        elif fault == "badell":
            r.choice([m, d])["crs"]["name"] = "nosuch"
        elif fault == "badvd":
            m["crs"]["vdatum"] = r.choice(["egm97", "msl"])
        elif fault == "noorigin":
            x = r.choice([m, d])["crs"]
            x["ref"] = "enu"
            x[r.choice(["longitude_origin", "latitude_origin", "altitude_origin"])] = None
        elif fault == "nofile":
            x = r.choice([m, d])
            x["points"], x["file_path"] = None, "nosuch.csv"
        elif fault == "nosource":
            m["points"], m["file_path"] = None, None
        elif fault == "density":
            m[r.choice(["density", "gravity_constant"])] = r.choice(["heavy", None, [1]])
        return cfg, bodies

    def split(self, cfg):
        """the same configuration over two files"""
        r = self.rng

        def part(t, top=False):
            if isinstance(t, dict):
                hi, lo = {}, {}
                for k, v in t.items():
                    if isinstance(v, dict):
                        hi[k], lo[k] = part(v)
                    elif r.random() < 0.5:
                        hi[k] = v
                        if r.random() < 0.5:
                            lo[k] = r.choice([v, None, 7.5, "wgs84"])
                    else:
                        lo[k] = v
                return hi, lo
            return t, t

        ms = [part(m) for m in cfg["masses"]]
        o = part(cfg["observers"])
        extra = [dict(ms[0][1])] if r.random() < 0.2 else []
        return (dict(masses=[x[0] for x in ms], observers=o[0]),
                dict(masses=[x[1] for x in ms] + extra, observers=o[1]))


def main(out, path, seed, k, n):
    scratch = os.getcwd()
    repo = os.environ.get("GEEC_REPO", "/repo")
    shim.setup(scratch, repo)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from loguru import logger

    logger.remove()
    import geec.api
    import geec.cli
    import geec.config
    import geec.mass
    import geec.observer
    import pandas as pd
    import pygeodesy as pg
    import yaml
    from typer.testing import CliRunner

    shim.logdir(geec.api, scratch)
    logs = os.path.join(scratch, "log")
    with open(os.path.join(repo, "geec/cfg/config_default.yaml")) as f:
        default = yaml.safe_load(f)
    with open(os.path.join(repo, "geec/cfg/config_template.yaml"), "rb") as f:
        template = f.read()
    real = os.path.join(repo, "geec/data/geoids")
    geoids = {v: pg.GeoidKarney(os.path.join(real, f)) for v, f in
              (("egm84", "egm84-15.pgm"), ("egm96", "egm96-5.pgm"), ("egm2008", "egm2008-2_5.pgm"))}
    grid84 = Grid(os.path.join(real, "egm84-15.pgm"))
    runner = CliRunner()

    def effects(step, act):
        return Effects(step["at"] // 2 % 4 + 1, step["at"] % 2 == 1,
                       tuple(os.path.join(scratch, x, "") for x in ("s", "home")), act)

    def invoke(args, step, rec):
        """run the program; returns its exit code"""
        f = step["fault"]
        if f == "kill":
            pid = os.fork()
            if pid == 0:
                code = 99
                try:
                    own_files()
                    at = step["at"] % 60 if rec["op"] == "config" else step["at"]
                    with effects(step, lambda: os._exit(77)) if step["at"] % 3 else \
                            Killer(at, TPL if rec["op"] == "config" else CSV, lambda: os._exit(77)):
                        code = args()
                finally:
                    os._exit(code)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            rec["fired"] = code == 77
            return code
        if f == "space":
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, ([0, 20, 100, 200, 300, 500, 900][step["at"] % 7], hard))
            # (the template is longer than that)
            try:
                return args()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if f == "interrupt":
            files = [tuple("geec/" + x for x in GEO), CSV,
                     tuple("geec/" + x for x in GEO + ("station.py", "polyhedron.py"))][step["at"] % 3]
            at = step["at"] * (7 if step["at"] % 3 == 2 else 1)
            if rec["op"] == "config":
                files, at = TPL, step["at"] % 60
            fired = []

            def act():
                fired.append(1)
                interrupt()

            with effects(dict(at=step["at"] // 4 * 2), act) if step["at"] % 4 == 3 else Killer(at, files, act):
                code = args()
            rec["fired"] = bool(fired)
            return code
        if step.get("shell") and rec["op"] != "write":
            rec["shell"] = True
            return args(True)
        return args()

    def cli(*args):
        def f(shell=False):
            if shell:
                r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shell.py"),
                                    scratch, repo, *args], capture_output=True, text=True, timeout=200)
                f.why = r.stderr[-300:] if r.returncode else ""
                # (a failure tells its reason besides)
                f.text = None if r.returncode else r.stdout + r.stderr
                return r.returncode
            try:
                res = runner.invoke(geec.cli.app, list(args))
            except BaseException as e:
                f.why = repr(e)
                return 98
            f.why = repr(res.exception) if res.exception else ""
            f.text = res.output
            try:
                f.text += res.stderr
            except ValueError:
                pass
            return res.exit_code
        f.why, f.text = "", None
        return f

    def block(s, step, target):
        """obstacles to writing"""
        blocked = False
        if step["fault"] == "parentfile":
            d = os.path.join(s.where(step["out"]), step["out"]["dirs"])
            if step["out"]["dirs"] and not os.path.exists(d):
                try:
                    os.makedirs(os.path.dirname(d), exist_ok=True)
                    with open(d, "w") as f:
                        f.write("in the way\n")
                except OSError:
                    pass
            blocked = os.path.isfile(d)
        elif step["fault"] == "isdir" and not os.path.exists(target):
            try:
                os.makedirs(target)
                with open(os.path.join(target, "x"), "w") as f:
                    f.write("kept\n")
            except OSError:
                pass
        elif s.rng.random() < 0.2 and not os.path.exists(target):
            try:
                os.makedirs(os.path.dirname(target), exist_ok=True)
                with open(target, "w") as f:
                    f.write("former,results\n" * s.rng.choice([1, 300]))
            except OSError:
                pass
        d = os.path.dirname(target)
        while not os.path.lexists(d):
            d = os.path.dirname(d)
        return blocked or os.path.isdir(target) or not os.path.isdir(d)

    def one(rng, scn, tr, emit):
        s = Session(rng, scratch, default, geoids, grid84)
        last = None
        for j, step in enumerate(scn):
            if step["op"] == "again":
                if last is None:
                    continue
                step = dict(last, **{k: step[k] for k in ("out", "shell", "vary")})
                step["again"] = True
                if step["vary"] in ("arg", "user", "split"):
                    step["layer"] = step["vary"]
                if step["vary"] == "grad":
                    step["grad"] = not step["grad"]
            op, o = step["op"], step["out"]
            ext = ".yaml" if op == "config" else ".csv"
            rel = (o["dirs"] + "/" if o["dirs"] else "") + o["stem"] + ext
            if op == "config" and not o["stem"]:
                o = dict(base="cwd", dirs="", stem="config_template", suf="")
                rel = "config_template.yaml"
            target = os.path.join(s.where(o), rel)
            rec = dict(id="%s.%d" % (tr, j), trace=tr, op=op, target=o["base"] + "/" + rel,
                       fault=step["fault"], fired=False, why="", scenario=step,
                       shell=False, layers=[], files=[], bodies=[], grad=False, readable=True, given=[],
                       names=[])
            req = s.request(o)
            answer = []
            shutil.rmtree(logs, ignore_errors=True)
            os.makedirs(logs)
            if op == "run":
                if step.get("again"):
                    cfg, bodies = last["made"]
                else:
                    s.files = {}
                if step.get("again"):
                    pass
                elif step["scene"] == "template":
                    cfg = yaml.safe_load(template)
                    p = np.array(cfg["masses"][0]["points"], dtype=float)
                    bodies = [dict(tri=gen.triangles(ecef(p, *AXES["wgs84"])), und=[], cell=[])]
                else:
                    cfg, bodies = s.scene(step)
                last = {k: v for k, v in step.items() if k not in ("again", "vary")}
                last["made"] = (cfg, bodies)
                step = {k: v for k, v in step.items() if k != "made"}
                rec["scenario"] = step
                if step.get("vary") == "keys":
                    cfg = shuffled(rng, cfg)
                arg, user = cfg, None
                if step["layer"] == "user":
                    arg, user = None, cfg
                elif step["layer"] == "split":
                    arg, user = s.split(cfg)
                if os.path.exists(s.userfile):
                    os.remove(s.userfile)
                if user is not None:
                    with open(s.userfile, "w") as f:
                        yaml.safe_dump(user, f)
                args = ["run", req]
                if arg is not None:
                    ap = os.path.join(s.inp, "cfg%d.yaml" % j)
                    with open(ap, "w") as f:
                        if step["scene"] == "template":
                            f.write(template.decode())
                        else:
                            yaml.safe_dump(arg, f, sort_keys="vary" not in step, default_flow_style=rng.choice([None, True, False]))
                    # other files of that name must not matter
                    for x in ("", "x"):
                        shutil.copy(os.path.join(s.inp, "geec.yaml"), os.path.join(s.cwd, os.path.basename(ap) + x))
                    args += ["--config", rng.choice([ap, os.path.relpath(ap, s.cwd)])]
                    if step["fault"] == "noconfig":
                        args[-1] += "x"
                    elif step["fault"] == "badyaml":
                        with open(ap, "w") as f:
                            f.write("masses: [1, {\n")
                    rec["readable"] = step["fault"] not in ("noconfig", "badyaml")
                if step["grad"]:
                    args.insert(rng.randint(1, len(args)) if arg is None else 1, "--gradient")
                elif rng.random() < 0.3:
                    args.append("--no-gradient")
                call = cli(*args)
                layers = [x for x in (arg, user, default) if x is not None]
                rec.update(layers=[node(x) for x in layers], bodies=bodies, grad=step["grad"],
                           files=[dict(path=p, rows=gen_rows(q)) for p, q in s.files.items()],
                           raw=dict(arg=arg, user=user, args=args))
            elif op == "write":
                cols = step["cols"] if step["rows"] < 100 else 2
                vals = [[rng.choice([rng.uniform(-1e4, 1e4), rng.gauss(0, 1) * 10.0 ** rng.randint(-300, 300),
                                     float(rng.randint(-9, 9)), rng.random() * 1e-7,
                                     np.nextafter(rng.uniform(-5, 5), 9), 5e-324, 1.7976931348623157e308,
                                     0.1 + 0.2, 1 / 3])
                         for _ in range(cols)] for _ in range(step["rows"])]
                names = [("c%d" % i, "(u%d)" % i) for i in range(cols)]
                df = pd.DataFrame(np.array(vals, dtype=float).reshape(len(vals), cols),
                                  columns=pd.MultiIndex.from_tuples(names))
                rec["given"] = gen.encm(vals)
                rec["names"] = [list(x) for x in zip(*names)]

                def call():
                    try:
                        geec.api.write_file(df, req)
                        return 0
                    except BaseException as e:
                        call.why = repr(e)
                        return 1

                call.why = ""
                rec["raw"] = dict(path=req)
            elif op == "ask":
                with open(s.userfile, "w") as f:
                    yaml.safe_dump(s.plain(), f)
                rec["must"], args, answer = question(step["what"], req)
                answer = [str(os.path.join(scratch, "log")) if x == "@log" else x for x in answer]
                call = cli(*args)
                rec["raw"] = dict(args=args)
            else:
                args = ["config"]
                if step["out"]["stem"]:
                    args += ["--output", req]
                call = cli(*args)
                rec["raw"] = dict(args=args)
            rec["blocked"] = block(s, step, target)
            typed = os.path.splitext(target)[0] + step["out"]["suf"]
            if rng.random() < 0.3 and not rec["blocked"] and os.path.isdir(os.path.dirname(typed)) \
                    and not os.path.lexists(typed) and typed.lower() != target.lower():
                # a file of the name as typed, which is not the one to write
                with open(typed, "w") as f:
                    f.write("something else\n")
            if op == "config":
                rec["blocked"] = not os.path.isdir(os.path.dirname(target)) or os.path.isdir(target)
                rec["digest"] = hashlib.sha1(template).hexdigest()
            rec["before"] = s.snapshot()
            code = invoke(call, step, rec)
            sys.settrace(None)
            os.chdir(s.cwd)
            rec["exit"] = code
            rec["said"] = SILENT
            if getattr(call, "text", None) is not None and step["fault"] not in ("space", "kill"):
                rec["said"] = says(call.text, heard(logs), target, answer)
            rec["loads"] = True
            if op == "config" and os.path.isfile(target):
                # the template is a configuration
                try:
                    with open(target) as f:
                        rec["layers"] = [node(yaml.safe_load(f)), node(default)]
                    if os.path.exists(s.userfile):
                        os.remove(s.userfile)
                    cfg = geec.config.setup(target)
                    geec.config.show(cfg)
                    geec.mass.get_masses(cfg)
                    geec.observer.get_observer(cfg)
                except Exception as e:
                    rec["loads"] = False
                    call.why = repr(e)
            rec["why"] = call.why
            rec["after"] = s.snapshot()
            rec["table"] = dict(ok=False, names=[], units=[], rows=[])
            if op != "config" and os.path.isfile(target):
                rec["table"] = table(target)
            emit(rec)
            if step["fault"] == "kill":
                # what a killed program leaves
                old = {p for p, _ in rec["before"]} | {rec["target"]}
                for p, _ in rec["after"]:
                    if p not in old:
                        base, rest = p.split("/", 1)
                        os.remove(os.path.join(s.where(dict(base=base)), rest))

    with open(path) as f:
        scns = json.load(f)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        for i in range(int(k), len(scns), int(n)):
            one(random.Random(int(seed) * 100003 + i), scns[i], "s%d" % i, emit)
    os.chdir(scratch)


if __name__ == "__main__":
    main(*sys.argv[1:])
