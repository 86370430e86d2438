------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* What may be given to GEEC, and what must be refused.  An argument is    *)
(* described by what can be observed of it:                                *)
(*   array   it is an array of numbers                                     *)
(*   shape   its shape, as a sequence                                      *)
(*   pts     its rows, if it is a table of three columns of finite numbers *)
(*   finite  all its numbers are finite                                    *)
(***************************************************************************)
EXTENDS Body

\* six times the volume of four of the points, over the cube of the extent
Det(P, i, j, k) == RAbs(Triple(VSub(P[i], P[1]), VSub(P[j], P[1]), VSub(P[k], P[1])))
Cube(x) == RMul(x, RMul(x, x))
\* four points that clearly span a solid
Solid(P) == \E i, j, k \in DOMAIN P :
               i < j /\ j < k /\ RLt(RMul(RLit("1e-4"), Cube(Size(P))), Det(P, i, j, k))
\* all points are in one plane, exactly (but for rounding in the 31st digit)
Flat(P) == \A i, j, k \in DOMAIN P :
               i < j /\ j < k => RLe(Det(P, i, j, k), RMul(RLit("1e-28"), Cube(PMax(P))))

Table(a) == a.array /\ Len(a.shape) = 2 /\ a.shape[2] = 3
BodyMust(a) == IF ~Table(a) \/ a.shape[1] < 4 \/ ~a.finite THEN "refuse"
               ELSE IF Flat(a.pts) THEN "refuse"
               ELSE IF Solid(a.pts) THEN "accept" ELSE "either"
StationMust(a) == IF ~a.array \/ a.shape # <<3>> THEN "refuse"
                  ELSE IF ~a.finite THEN "nonsense" ELSE "accept"
\* a call: are all bodies bodies, is each factor a number
CallMust(bodies, rho, gc) ==
    IF ~rho \/ ~gc THEN (IF bodies = <<>> THEN "either" ELSE "refuse")
    ELSE IF \A i \in DOMAIN bodies : bodies[i] THEN "accept" ELSE "refuse"
\* the label of a local system: two ellipsoids, by their axes
LabelMust(e, f) == IF e = f THEN "accept" ELSE "refuse"
=============================================================================
