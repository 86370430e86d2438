"""Stand-ins for the environment GEEC needs but this copy of the repository lacks.

geec.crs opens three geoid grids when it is imported; egm96-5.pgm and
egm2008-2_5.pgm are not part of this copy.  The shim writes two synthetic grids
(same PGM format, read by the real pygeodesy.GeoidKarney) to a scratch directory
and redirects *missing* grid files to them at the single place where pygeodesy
opens a grid.  No GEEC code is replaced.

The synthetic undulations are linear in latitude and in the angle between the
longitude and 30 E, so that pygeodesy's cubic interpolation reproduces them
exactly away from the kinks at longitudes 30 E and 150 W:

    N(lat, lon) = c0 + clat * lat + clon * |lon - 30|      (see spec/Geodesy.tla)
"""
import os
import struct
import sys

# name -> (c0, clat, clon), all multiples of 0.003 on the 1 degree grid
SYNTH = {
    "egm96-5.pgm": (12.0, 0.30, -0.15),
    "egm2008-2_5.pgm": (-21.0, -0.24, 0.21),
}
SCALE, OFFSET = 0.003, -108.0


def write_grid(path, c0, clat, clon):
    nlon, nlat = 360, 181
    rows = []
    for y in range(nlat):
        lat = 90 - y
        row = []
        for x in range(nlon):
            lon = abs((x + 150) % 360 - 180)
            row.append(round((c0 + clat * lat + clon * lon - OFFSET) / SCALE))
        rows.append(struct.pack(">%dH" % nlon, *row))
    head = (
        b"P5\n# Geoid file in PGM format for the GeographicLib::Geoid class\n"
        b"# Description synthetic\n# URL none\n# DateTime 2009-08-29 18:45:02\n"
        b"# MaxBilinearError 0.1\n# RMSBilinearError 0.01\n# MaxCubicError 0.02\n"
        b"# RMSCubicError 0.001\n# Offset -108\n# Scale 0.003\n# Origin 90N 0E\n"
        b"# AREA_OR_POINT Point\n# Vertical_Datum WGS84\n360 181\n65535\n"
    )
    with open(path, "wb") as f:
        f.write(head + b"".join(rows))


def install(scratch):
    """Redirect the opening of missing grids; call before geec.crs is imported."""
    import pygeodesy.geoids as pg

    for name, coef in SYNTH.items():
        write_grid(os.path.join(scratch, name), *coef)
    orig = pg._GeoidBase._open

    def _open(self, geoid, *a, **k):
        base = os.path.basename(str(geoid))
        if base in SYNTH and not os.path.exists(geoid):
            geoid = os.path.join(scratch, base)
        return orig(self, geoid, *a, **k)

    pg._GeoidBase._open = _open


def setup(scratch, repo="/repo"):
    os.environ["HOME"] = os.path.join(scratch, "home")
    os.environ.pop("XDG_CONFIG_HOME", None)
    os.environ.pop("XDG_CONFIG_DIRS", None)
    os.environ.pop("GEECDIR", None)
    os.makedirs(os.environ["HOME"], exist_ok=True)
    # variables that must not matter
    for k, v in (("MASSES__0__DENSITY", "77777.0"), ("OBSERVERS__CRS__REF", "ecef"), ("DENSITY", "5"),
                 ("OBSERVERS__POINTS", "[[7, 7, 7]]"), ("GRADIENT", "1"), ("CONFIG", "/nosuch.yaml"), ("OUTPUT", "z")):
        os.environ["GEEC_" + k] = v
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    install(scratch)


def logdir(api, scratch):
    """log files go to the scratch folder, not beside the package"""
    import pathlib

    d = pathlib.Path(scratch) / "log"
    d.mkdir(exist_ok=True)
    if hasattr(api, "setup_logdir"):
        api.setup_logdir = lambda *a, **k: d
