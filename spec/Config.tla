------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a set of configuration files means.  Files are layers of trees,    *)
(* the one of highest priority first (argument, user, packaged default).   *)
(* A node of a tree is a record; n.t is its type:                          *)
(*   "map"  n.m a sequence of pairs <<key, node>>                          *)
(*   "list" n.l a sequence of nodes                                        *)
(*   "num"  n.v a number (see Flt)                                         *)
(*   "str"  n.v, and n.lc the same in lower case                           *)
(*   "bool", "null"                                                        *)
(* The configuration module (geec/config.py) is specified by Get; reading  *)
(* coordinates (geec/dataset.py) by Source, building reference systems     *)
(* (geec/crs.py) by CrsOf, mass bodies and observers by MassOf, ObsOf.     *)
(***************************************************************************)
EXTENDS Vec3

Miss == [t |-> "miss"]
Bad == [t |-> "bad"]
Null == [t |-> "null"]

HasKey(n, k) == \E i \in DOMAIN n.m : n.m[i][1] = k
AtKey(n, k) == n.m[CHOOSE i \in DOMAIN n.m : n.m[i][1] = k][2]

\* what layer n brings for a key (a string in maps, a position in lists):
\* nothing, one node, or Bad if n is no collection
Bring(n, k, byPos) ==
    CASE n.t = "map" -> IF ~byPos /\ HasKey(n, k) THEN <<AtKey(n, k)>> ELSE <<>>
      [] n.t = "list" -> IF ~byPos THEN <<Bad>> ELSE IF k <= Len(n.l) THEN <<n.l[k]>> ELSE <<>>
      [] OTHER -> <<Bad>>
\* the nodes found under key k of the given nodes, highest priority first
Under(ns, k) == Fold(LAMBDA a, n : a \o Bring(n, k, FALSE), <<>>, ns)
Item(ns, i) == Fold(LAMBDA a, n : a \o Bring(n, i, TRUE), <<>>, ns)
First(ns) == IF ns = <<>> THEN Miss ELSE ns[1]
\* value of one parameter: that of the first layer that defines it (C11)
Get(ns, k) == First(Under(ns, k))

\* the number of mass bodies: as many as the first layer with a list has
Masses(layers) == Under(layers, "masses")
NMasses(layers) == LET m == First(Masses(layers))
                   IN IF m.t = "list" THEN Len(m.l) ELSE 0
MassesOk(layers) == First(Masses(layers)).t = "list"

-----------------------------------------------------------------------------
\* a result: [ok |-> TRUE, v |-> ...], or a refusal
Ok(v) == [ok |-> TRUE, v |-> v]
Refuse == [ok |-> FALSE]

Ellipsoid(n) == CASE n = "" -> <<>>
                  [] n = "maupertuis" -> <<"6397300.0", "6363806.283">>
                  [] n = "plessis" -> <<"6376523.0", "6355862.9333">>
                  [] n = "everest1830" -> <<"6377299.365", "6356098.359">>
                  [] n = "everest1830m" -> <<"6377304.063", "6356103.039">>
                  [] n = "everest1967" -> <<"6377298.556", "6356097.55">>
                  [] n = "airy" -> <<"6377563.396", "6356256.909">>
                  [] n = "bessel" -> <<"6377397.155", "6356078.963">>
                  [] n = "clarke1866" -> <<"6378206.4", "6356583.8">>
                  [] n = "clarke1878" -> <<"6378190.0", "6356456.0">>
                  [] n = "clarke1860" -> <<"6378249.145", "6356514.87">>
                  [] n = "helmert" -> <<"6378200.0", "6356818.17">>
                  [] n = "hayford" -> <<"6378388.0", "6356911.946">>
                  [] n = "international1924" -> <<"6378388.0", "6356911.946">>
                  [] n = "krassovsky1940" -> <<"6378245.0", "6356863.019">>
                  [] n = "wgs66" -> <<"6378145.0", "6356759.769">>
                  [] n = "australian" -> <<"6378160.0", "6356774.719">>
                  [] n = "international1967" -> <<"6378157.5", "6356772.2">>
                  [] n = "grs67" -> <<"6378160.0", "6356774.516">>
                  [] n = "sa1969" -> <<"6378160.0", "6356774.719">>
                  [] n = "wgs72" -> <<"6378135.0", "6356750.52001609">>
                  [] n = "grs80" -> <<"6378137.0", "6356752.31414036">>
                  [] n = "wgs84" -> <<"6378137.0", "6356752.31424518">>
                  [] n = "wgs84_mean" -> <<"6371008.7714", "6371008.7714">>
                  [] n = "iers1989" -> <<"6378136.0", "6356751.302">>
                  [] n = "pz90.11" -> <<"6378136.0", "6356751.3618">>
                  [] n = "iers2003" -> <<"6378136.6", "6356751.9">>
                  [] n = "gsk2011" -> <<"6378136.5", "6356751.758">>
                  [] n = "mercury" -> <<"2440500.0", "2438300.0">>
                  [] n = "venus" -> <<"6051800.0", "6051800.0">>
                  [] n = "moon" -> <<"1738100.0", "1736000.0">>
                  [] n = "mars" -> <<"3396900.0", "3376097.80585952">>
                  [] n = "jupyter" -> <<"71492000.0", "66770054.3475922">>
                  [] n = "io" -> <<"1829.7", "1815.8">>
                  [] n = "saturn" -> <<"60268000.0", "54364301.5271271">>
                  [] n = "uranus" -> <<"25559000.0", "24973000.0">>
                  [] n = "neptune" -> <<"24764000.0", "24341000.0">>
                  [] n = "pluto" -> <<"1188000.0", "1188000.0">>
                  [] OTHER -> <<>>
Known(n) == Ellipsoid(n) # <<>>
Axes(n) == LET e == Ellipsoid(n) IN <<RDouble(e[1]), RDouble(e[2])>>

NoStr(n) == n.t \in {"miss", "null"} \/ (n.t = "str" /\ n.v = "")
NoNum(n) == n.t \in {"miss", "null"}
IsTrue(n) == ~(n.t \in {"miss", "null"} \/ (n.t = "str" /\ n.v = "") \/ (n.t = "list" /\ n.l = <<>>)
               \/ (n.t = "map" /\ n.m = <<>>))

\* kind of reference system, or "bad"
RefOf(n) == IF NoNum(n) THEN "ellps"
            ELSE IF n.t = "str" /\ n.lc \in {"cart", "ellps", "enu", "ecef"} THEN n.lc ELSE "bad"
VDatumOf(n) == IF NoNum(n) THEN "ellps"
               ELSE IF n.t # "str" THEN "bad"
               ELSE IF n.lc \in {"ellps", "egm84", "egm96", "egm2008"} THEN n.lc
               ELSE IF n.lc = "egm08" THEN "egm2008" ELSE "bad"
EllOf(cs) ==
    LET n == Get(cs, "name")
        a == Get(cs, "semimajor_axis")
        b == Get(cs, "semiminor_axis")
    IN IF ~NoStr(n) /\ (n.t # "str" \/ ~Known(n.v)) THEN Refuse
       ELSE IF ~NoStr(n) THEN Ok(Axes(n.v))
       ELSE IF ~NoNum(a) /\ ~NoNum(b) /\ \E x \in {a, b} : x.t # "num" THEN Refuse
       ELSE IF a.t = "num" /\ b.t = "num" THEN Ok(<<a.v, b.v>>)
       ELSE Ok(Axes("wgs84"))
\* the reference system described by the nodes cs, each a 'crs' section (C14)
CrsOf(cs) ==
    LET ref == RefOf(Get(cs, "ref"))
        e == EllOf(cs)
        vd == VDatumOf(Get(cs, "vdatum"))
        o == [i \in 1..3 |-> Get(cs, <<"longitude_origin", "latitude_origin", "altitude_origin">>[i])]
    IN CASE ref = "bad" -> Refuse
         [] ref \in {"cart", "ecef"} -> Ok([sys |-> ref, vd |-> "ellps", a |-> 0, b |-> 0,
                                            org |-> <<0, 0, 0>>])
         [] OTHER ->
            IF ~e.ok \/ vd = "bad" THEN Refuse
            ELSE IF ref = "ellps" THEN Ok([sys |-> ref, vd |-> vd, a |-> e.v[1], b |-> e.v[2],
                                           org |-> <<0, 0, 0>>])
            ELSE IF \E i \in 1..3 : o[i].t # "num" THEN Refuse
            ELSE Ok([sys |-> ref, vd |-> vd, a |-> e.v[1], b |-> e.v[2],
                     org |-> [i \in 1..3 |-> o[i].v]])
\* a parameter is in no layer, or an axis is no number: refusing is right as well
CrsMissing(cs) ==
    \/ \E k \in {"semimajor_axis", "semiminor_axis"} : Get(cs, k).t \notin {"num", "null"}
    \/ \E k \in {"ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin",
              "latitude_origin", "altitude_origin"} : Get(cs, k).t = "miss"

-----------------------------------------------------------------------------
(* Coordinates (C12).  files: sequence of [path, rows], the files that exist. *)
IsRow(n) == n.t = "list" /\ \A i \in DOMAIN n.l : n.l[i].t = "num"
RowsOf(n) == [i \in DOMAIN n.l |-> [j \in DOMAIN n.l[i].l |-> n.l[i].l[j].v]]
Axis(n) == IF n.t = "list" /\ Len(n.l) = 3 /\ IsRow(n)
           THEN [i \in 1..3 |-> n.l[i].v] ELSE <<>>
Source(ns, files) ==
    LET p == Get(ns, "points")
        f == Get(ns, "file_path")
        g == Get(ns, "grid")
        gs == Under(ns, "grid")
        ax == [i \in 1..3 |-> Axis(Get(gs, <<"xstart_xend_xstep", "ystart_yend_ystep",
                                             "zstart_zend_zstep">>[i]))]
    IN IF IsTrue(p)
       THEN IF p.t = "list" /\ \A i \in DOMAIN p.l : IsRow(p.l[i])
            THEN Ok([kind |-> "rows", rows |-> RowsOf(p)]) ELSE Refuse
       ELSE IF IsTrue(f)
       THEN IF f.t = "str" /\ \E i \in DOMAIN files : files[i].path = f.v
            THEN Ok([kind |-> "rows",
                     rows |-> files[CHOOSE i \in DOMAIN files : files[i].path = f.v].rows])
            ELSE Refuse
       ELSE IF IsTrue(g) /\ \A i \in 1..3 : ax[i] # <<>>
       THEN Ok([kind |-> "grid", axes |-> ax])
       ELSE Refuse
\* small multiples of 1/64: no rounding at all
Dyadic(a) == \A i \in 1..3 : LET x == RMul(64, a[i]) IN REq(x, RFloor(x))
\* numbers of steps of an axis: start, start + step, ... strictly before end;
\* both counts where the rounding of the division decides
Counts(a) == LET q == RDiv(RSub(a[2], a[1]), a[3])
                 k == RFloor(q)
                 r == RSub(q, k)
                 z == RLit("1e-12")
                 fix(n) == CHOOSE m \in 0..2000 : REq(m, n)
             IN IF RLe(q, 0) THEN {0}
                ELSE IF REq(r, 0) /\ Dyadic(a) THEN {fix(k)}
                ELSE IF RLe(r, z) THEN {fix(k), fix(k) + 1}
                ELSE IF RLe(RSub(1, r), z) THEN {fix(k) + 1, fix(k) + 2}
                ELSE {fix(k) + 1}
\* a parameter is in no layer, or the grid has no point at all: refusing is right as well
SourceMissing(ns, files) ==
    \/ \E k \in {"points", "file_path"} : Get(ns, k).t = "miss"
    \/ LET s == Source(ns, files)
       IN s.ok /\ s.v.kind = "grid" /\ \E i \in 1..3 : 0 \in Counts(s.v.axes[i])
GridRows(ax, n) ==
    [i \in 1..(n[1] * n[2] * n[3]) |->
        LET c == (i - 1) % n[3]
            b == ((i - 1) \div n[3]) % n[2]
            a == (i - 1) \div (n[2] * n[3])
        IN TLCEval(<<RAdd(ax[1][1], RMul(a, ax[1][3])), RAdd(ax[2][1], RMul(b, ax[2][3])),
                     RAdd(ax[3][1], RMul(c, ax[3][3]))>>)]
SameRows(got, want, tol(_, _)) ==
    /\ Len(got) = Len(want)
    /\ \A i \in DOMAIN got : /\ Len(got[i]) = Len(want[i])
                             /\ \A j \in DOMAIN got[i] : Near(got[i][j], want[i][j], tol(want[i][j], j))
Exact(x, j) == 0
\* coordinates got are those of the source
Coords(src, got) ==
    IF src.kind = "rows" THEN SameRows(got, src.rows, Exact)
    ELSE \E nx \in Counts(src.axes[1]), ny \in Counts(src.axes[2]), nz \in Counts(src.axes[3]) :
            /\ Len(got) = nx * ny * nz
            /\ LET tol(x, j) == LET a == src.axes[j]
                                IN RMul(RLit("1e-14"), RAdd(RAbs(a[1]), RAdd(RAbs(a[2]), RAbs(a[3]))))
               IN SameRows(got, GridRows(src.axes, <<nx, ny, nz>>), tol)
-----------------------------------------------------------------------------
\* mass body i, observers
MassNodes(layers, i) == Item(Masses(layers), i)
ObsNodes(layers) == Under(layers, "observers")
Density(ns) == LET n == Get(ns, "density") IN IF n.t = "num" THEN Ok(n.v) ELSE Refuse
Constant(ns) == LET n == Get(ns, "gravity_constant") IN IF n.t = "num" THEN Ok(n.v) ELSE Refuse
DataOk(ns, files) == Source(ns, files).ok /\ CrsOf(Under(ns, "crs")).ok
DataMissing(ns, files) == SourceMissing(ns, files) \/ CrsMissing(Under(ns, "crs"))
MassesBuild(layers, files) ==
    /\ MassesOk(layers)
    /\ \A i \in 1..NMasses(layers) :
          LET ns == MassNodes(layers, i)
          IN DataOk(ns, files) /\ Density(ns).ok /\ Constant(ns).ok
MassesMissing(layers, files) ==
    \E i \in 1..NMasses(layers) :
        LET ns == MassNodes(layers, i)
        IN \/ DataMissing(ns, files) \/ Get(Under(ns, "crs"), "vdatum").t = "miss"
           \/ Get(ns, "density").t = "miss" 
           \/ Get(ns, "gravity_constant").t = "miss"
=============================================================================
