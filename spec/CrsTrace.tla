------------------------------ MODULE CrsTrace ------------------------------
(***************************************************************************)
(* Trace specification for conversions: each line is one conversion of one *)
(* or several datasets and the state of all datasets after it, coordinates *)
(* and label.  Labels must change as in Crs.tla, coordinates as            *)
(* Geodesy.tla says.                                                       *)
(***************************************************************************)
EXTENDS Geodesy, Json, IOUtils

Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES l, ds, first, steps, unused
vars == <<l, ds, first, steps, unused>>
C == INSTANCE Crs WITH Ell <- {}, WGS84 <- "wgs84", Origin <- {}, Geoid <- {}, NDs <- 0,
       MaxOps <- 0, EnuViaWGS84 <- TRUE, UseOwnOrigin <- TRUE, ClearDatum <- TRUE,
       GeoOnly <- TRUE, OwnLabel <- TRUE, label <- unused, real <- unused,
       added <- unused, init <- unused, nops <- unused

WA == RLit("6378137")
WB == RLit("6356752.31424518")
IsWGS84(c) == Near(c.a, WA, RLit("1e-6")) /\ Near(c.b, WB, RLit("1e-4"))
EllName(c) == IF c.sys \in {"ecef", "cart"} THEN "none"
              ELSE IF IsWGS84(c) THEN "wgs84" ELSE "other"
Org(c) == IF c.sys = "enu" THEN c.org ELSE "none"
\* the label, as Crs.tla has it
Abs(c) == [sys |-> c.sys, ell |-> EllName(c), org |-> Org(c), vd |-> c.vd]

PosTol(p) == RAdd(RLit("1e-6"), RMul(RLit("4e-16"), VMaxAbs(p)))
SamePlace(a, b, k) ==
    /\ Len(a.pts) = Len(b.pts)
    /\ \A i \in DOMAIN a.pts :
          LET p == Position(a.pts[i], a.crs)
          IN VNear(p, Position(b.pts[i], b.crs), RMul(k, PosTol(p)))
SamePts(a, b) == a.pts = b.pts
Moves(op) == op \in {"ecef", "wgs84", "enu"}

After(c, r) == CASE r.op = "ecef" -> C!AfterEcef(c)
                 [] r.op = "wgs84" -> C!AfterWGS84(c)
                 [] r.op = "enu" -> C!AfterEnu(c, r.org)
                 [] r.op = "height" -> C!AfterHeight(c)
                 [] r.op = "lon180" -> C!AfterWrap(c)
\* a label is complete: what its system needs is there
Complete(x) == x.crs.sys \in {"ellps", "enu"} => RFinite(x.crs.a) /\ RFinite(x.crs.b)
LabelOk(r, a, b) ==
    \/ Abs(b.crs) = After(Abs(a.crs), r)
    \* an ENU dataset may also be brought to the new origin
    \/ r.op = "enu" /\ a.crs.sys = "enu" /\ b.crs.sys = "enu" /\ b.crs.vd = a.crs.vd

\* heights: the trace brings the undulation interpolated in the grid of the model, and
\* (where the grid is the real one) the values around each point; near the poles and its
\* kinks, a synthetic grid only tells the size of it
CellMax(q) == Fold(LAMBDA m, x : RMax(m, x), q[1], q)
CellMin(q) == Fold(LAMBDA m, x : RMin(m, x), q[1], q)
UndOk(vd, p, c) ==
    IF c.cell = <<>> THEN Near(c.und, Undulation(vd, p), IF Plain(p) THEN RLit("0.004") ELSE 60)
    ELSE /\ RLe(c.und, RAdd(CellMax(c.cell), RLit("0.5")))
         /\ RLe(RSub(CellMin(c.cell), RLit("0.5")), c.und)
HeightOk(a, b, i, cell) ==
    LET p == a.pts[i]
        d == RSub(b.pts[i][3], p[3])
    IN /\ b.pts[i][1] = p[1] /\ b.pts[i][2] = p[2]
       /\ IF a.crs.vd = "ellps" THEN b.pts[i][3] = p[3]
          ELSE Near(d, cell[i].und, RLit("1e-3"))
WrapTol(x) == RAdd(RLit("1e-12"), RMul(RLit("1e-15"), RAbs(x)))
WrapOk(a, b, i) ==
    LET x == a.pts[i][1]
        y == b.pts[i][1]
    IN /\ b.pts[i][2] = a.pts[i][2] /\ b.pts[i][3] = a.pts[i][3]
       /\ LonIn180(y)
       /\ IF LonIn180(x) THEN y = x ELSE SameMeridian(x, y, WrapTol(x))

\* one dataset, before and after
OneVerdict(r, d, cell) ==
    LET a == ds[d]
        b == r.after[d]
    IN IF ~Complete(b) THEN {"label-incomplete"}
       ELSE (IF Len(a.pts) = Len(b.pts) THEN {} ELSE {"points-lost"})
       \cup (IF \A j \in 1..3 : b.cols[j] = [i \in DOMAIN b.pts |-> b.pts[i][j]] THEN {} ELSE {"columns"})
       \cup (IF Len(a.pts) # Len(b.pts) THEN {}
             ELSE (IF LabelOk(r, a, b) THEN {}
                   ELSE IF Abs(b.crs).vd # After(Abs(a.crs), r).vd THEN {"datum"} ELSE {"label"})
             \cup (IF a.crs.sys = "cart" /\ ~SamePts(a, b) THEN {"cart-changed"} ELSE {})
             \cup (IF ~Moves(r.op) THEN {}
                   ELSE (IF SamePlace(a, b, 1) THEN {} ELSE {"moved"})
                   \cup (IF b.crs.sys \notin {"cart"} /\ first[d].ok
                            /\ ~SamePlace([pts |-> first[d].pos, crs |-> [sys |-> "ecef"]], b,
                                          steps + 2)
                         THEN {"drifted"} ELSE {}))
             \cup (IF r.op # "height" THEN {}
                   ELSE IF a.crs.sys = "ellps"
                   THEN (IF a.crs.vd # "ellps" /\ \E i \in DOMAIN a.pts : ~UndOk(a.crs.vd, a.pts[i], cell[i])
                         THEN {"oracle-undulation"}
                         ELSE IF \A i \in DOMAIN a.pts : HeightOk(a, b, i, cell) THEN {} ELSE {"height"})
                   ELSE (IF SamePts(a, b) THEN {} ELSE {"height-not-geographic"}))
             \cup (IF r.op # "lon180" THEN {}
                   ELSE IF a.crs.sys = "ellps"
                   THEN (IF \A i \in DOMAIN a.pts : WrapOk(a, b, i) THEN {} ELSE {"wrap"})
                   ELSE (IF SamePts(a, b) THEN {} ELSE {"wrap-not-geographic"})))

Same(a, b) == a.pts = b.pts /\ a.crs = b.crs
\* a refusal: geoid heights out of the range of longitudes of the geoid grids
MayRefuse(r) == r.op = "height" /\ \E k \in DOMAIN r.ds : LET a == ds[r.ds[k]] IN
                   a.crs.sys = "ellps" /\ \E i \in DOMAIN a.pts : ~LonIn180(a.pts[i][1])
Verdict(r) ==
    IF ~r.ok
    THEN IF MayRefuse(r) THEN {} ELSE {"raised"}
    ELSE UNION {OneVerdict(r, r.ds[k], r.cells[k]) : k \in DOMAIN r.ds}
         \cup (IF \A d \in DOMAIN ds : d \in {r.ds[k] : k \in DOMAIN r.ds} \/ Same(r.after[d], ds[d])
               THEN {} ELSE {"other-dataset"})

Places(x) == [ok |-> TRUE, pos |-> [i \in DOMAIN x.pts |-> Position(x.pts[i], x.crs)]]
Begin(r) == /\ ds' = r.after
            /\ first' = [d \in DOMAIN r.after |-> Places(r.after[d])]
            /\ steps' = 0
            /\ ~r.ok => PrintT("FAIL " \o ToJson(<<r.id, {"raised"}>>))
Conv(r) == /\ LET v == Verdict(r) IN v # {} => PrintT("FAIL " \o ToJson(<<r.id, v>>))
           /\ ds' = r.after
           /\ steps' = steps + 1
           \* heights and wrapping redefine where nominal positions are
           /\ first' = [d \in DOMAIN first |->
                 IF r.op = "height" /\ \E k \in DOMAIN r.ds : r.ds[k] = d
                 THEN [ok |-> FALSE, pos |-> <<>>] ELSE first[d]]
Init == l = 1 /\ ds = <<>> /\ first = <<>> /\ steps = 0 /\ unused = 0
Step == /\ l <= Len(Lines)
        /\ IF Lines[l].op = "begin" THEN Begin(Lines[l]) ELSE Conv(Lines[l])
        /\ l' = l + 1 /\ UNCHANGED unused
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
        /\ UNCHANGED <<ds, first, steps, unused>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
