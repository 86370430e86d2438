"""Replay loads of configurations (from ConfigGen.tla) into GEEC."""
import json
import os
import random
import shutil
import sys
import warnings

import gen
import watch
import shim
from cfglib import Maker, coords, label, node, paths


def main(out, path, seed, k, n):
    scratch = os.getcwd()
    repo = os.environ.get("GEEC_REPO", "/repo")
    shim.setup(scratch, repo)
    warnings.simplefilter("ignore")
    from loguru import logger

    logger.remove()
    import confuse
    import geec.config
    import geec.mass
    import geec.observer
    import yaml

    with open(os.path.join(repo, "geec/cfg/config_default.yaml")) as f:
        default = yaml.safe_load(f)
    userdir = os.path.join(os.environ["HOME"], ".config", "geec")
    os.makedirs(userdir, exist_ok=True)
    userfile = os.path.join(userdir, "config.yaml")
    # files that must not matter
    for p in ("config.yaml", "config_default.yaml", "geec.yaml"):
        with open(os.path.join(scratch, p), "w") as f:
            f.write("masses:\n  - density: 77777.0\nobservers:\n  points: [[7, 7, 7]]\n")

    def read(cfg, p):
        v = cfg
        try:
            for s in p:
                v = v[s]
            return node(v.get())
        except confuse.NotFoundError:
            return dict(t="miss")
        except confuse.ConfigError:
            return dict(t="bad")

    def item(d, mass=None, names=""):
        res = dict(coords=coords(d), crs=label(d.crs), names=names)
        if mass is not None:
            res.update(rho=gen.enc(mass.density), gc=gen.enc(mass.gravity_constant))
        return res

    def attempt(f):
        try:
            return dict(ok=True, items=f())
        except Exception as e:
            return dict(ok=False, items=[], cfgerr=isinstance(e, confuse.ConfigError), why=repr(e))

    def run(rng, scn, tr, emit):
        user = None
        if os.path.exists(userfile):
            os.remove(userfile)
        mk = Maker(rng, scratch)
        mk.default_file(default)
        for j, load in enumerate(scn):
            if load["user"] != "@keep":
                user = None if load["user"] == "@none" else mk.value(load["user"])
                if user is None:
                    if os.path.exists(userfile):
                        os.remove(userfile)
                else:
                    with open(userfile, "w") as f:
                        yaml.safe_dump(user, f)
            arg = None if load["arg"] == "@none" else mk.value(load["arg"])
            apath = None
            if arg is not None:
                name = rng.choice(["a.yaml", "b.yml", "cfg"])
                apath = os.path.join(scratch, name)
                if rng.random() < 0.5:
                    # beside another file of that name, where the program is
                    os.makedirs(os.path.join(scratch, "sub"), exist_ok=True)
                    shutil.copy(os.path.join(scratch, "geec.yaml"), apath)
                    apath = os.path.join(scratch, "sub", name)
                if os.getcwd() == scratch:
                    apath = rng.choice([apath, apath, os.path.relpath(apath)])
                with open(apath, "w") as f:
                    yaml.safe_dump(arg, f)
            layers = [x for x in (arg, user, default) if x is not None]
            if len(mk.files) > 40:
                mk.files = {p: r for p, r in mk.files.items() if p in json.dumps(layers)}
            rec = dict(id="%s.%d" % (tr, j), trace=tr, layers=[node(x) for x in layers],
                       files=mk.table(), ok=True, err="", probes=[],
                       raw=dict(arg=arg, user=user), scenario=load)
            try:
                if apath is None:
                    cfg = geec.config.setup() if rng.random() < 0.5 else geec.config.setup("")
                else:
                    cfg = geec.config.setup(apath)
                order = rng.random() < 0.5
                if order:
                    ms = attempt(lambda: [item(m.dataset, m) for m in geec.mass.get_masses(cfg)])
                nm = len(cfg["masses"].get())
                rec["probes"] = [dict(path=[dict(k=s if isinstance(s, str) else "",
                                                 i=0 if isinstance(s, str) else s + 1) for s in p],
                                      got=read(cfg, p)) for p in paths(nm)]

                def obs():
                    o = geec.observer.get_observer(cfg)
                    return [item(o.dataset, names=" ".join(o.coords_name))]

                ob = attempt(obs)
                if not order:
                    ms = attempt(lambda: [item(m.dataset, m) for m in geec.mass.get_masses(cfg)])
                rec.update(masses=ms, obs=ob)
            except Exception as e:
                rec.update(ok=False, err=repr(e))
            emit(rec)

    with open(path) as f:
        scns = json.load(f)
    with open(out, "w") as f:
        emit = watch.emitter(f)
        for i in range(int(k), len(scns), int(n)):
            run(random.Random(int(seed) * 100003 + i), scns[i], "g%d" % i,
                emit)


if __name__ == "__main__":
    main(*sys.argv[1:])
