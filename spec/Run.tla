--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* A run of the program, as in geec/cli.py: mass bodies and observations   *)
(* are given in some reference system; heights above a geoid are brought   *)
(* to the ellipsoid, everything to one frame (ECEF, or Cartesian as given),*)
(* the field of each body is added up at each station, and a row written   *)
(* per observation.                                                        *)
(*                                                                         *)
(* Coordinates are abstract: "sys" is the system they are expressed in,    *)
(* "und" how often the undulation of the body's geoid was added.  The      *)
(* field of a body at a station is a term that tells what it was computed  *)
(* from.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxMasses, MaxObs,
          \* design variants: TRUE is right
          HeightsFirst,   \* heights are converted before the coordinates are ECEF
          OneFrame,       \* stations are brought to the frame of the bodies
          ReportFirst,    \* positions are reported before stations leave WGS84
          OwnFactor,      \* each body has its own density and constant
          AddUp           \* the field is the sum over bodies

Sys == {"cart", "ellps", "enu", "ecef"}
\* geoid: heights are above a geoid (only geographic coordinates are)
Given == [sys : Sys, geoid : BOOLEAN]

VARIABLES given,   \* the mass bodies as configured
          obsgiven, \* the observations: their system, and how many
          mass,    \* the bodies as they are now: [sys, und]
          obs,     \* the system of the stations
          pos,     \* positions to report: the system they are in, per row
          field,   \* per row: the bag of terms, as a sequence
          pc, i, j
vars == <<given, obsgiven, mass, obs, pos, field, pc, i, j>>

NM == Len(given)
NO == obsgiven.n
Step(p, q) == pc = p /\ pc' = q
Init == /\ given \in UNION {[1..n -> Given] : n \in 1..MaxMasses}
        /\ obsgiven \in [sys : Sys, n : 1..MaxObs]
        /\ mass = [k \in 1..Len(given) |-> [sys |-> given[k].sys, und |-> 0]]
        /\ obs = obsgiven.sys
        /\ pos = <<>> /\ field = <<>> /\ i = 1 /\ j = 1
        /\ pc = IF HeightsFirst THEN "height" ELSE "ecef"

\* to_ellipsoid_height: geographic coordinates only; the label then says so
Heights == /\ Step("height", IF HeightsFirst THEN "ecef" ELSE "build")
           /\ mass' = [k \in DOMAIN mass |->
                 IF mass[k].sys = "ellps" /\ given[k].geoid THEN [mass[k] EXCEPT !.und = @ + 1] ELSE mass[k]]
           /\ UNCHANGED <<given, obsgiven, obs, pos, field, i, j>>
ToEcef(s) == IF s = "cart" THEN "cart" ELSE "ecef"
Ecef == /\ Step("ecef", IF HeightsFirst THEN "build" ELSE "height")
        /\ mass' = [k \in DOMAIN mass |-> [mass[k] EXCEPT !.sys = ToEcef(@)]]
        /\ UNCHANGED <<given, obsgiven, obs, pos, field, i, j>>
Build == /\ Step("build", "wgs84") /\ UNCHANGED <<given, obsgiven, mass, obs, pos, field, i, j>>
Wgs84 == /\ Step("wgs84", IF ReportFirst THEN "report" ELSE "frame")
         /\ obs' = IF obs = "cart" THEN "cart" ELSE "wgs84"
         /\ UNCHANGED <<given, obsgiven, mass, pos, field, i, j>>
Report == /\ Step("report", IF ReportFirst THEN "frame" ELSE "sum")
          /\ pos' = [r \in 1..NO |-> obs]
          /\ UNCHANGED <<given, obsgiven, mass, obs, field, i, j>>
Frame == /\ Step("frame", IF ReportFirst THEN "sum" ELSE "report")
         /\ obs' = IF OneFrame THEN ToEcef(obs) ELSE obs
         /\ UNCHANGED <<given, obsgiven, mass, pos, field, i, j>>
\* body j at station i
Term == [body |-> j, factor |-> IF OwnFactor THEN j ELSE 1, und |-> mass[j].und, from |-> mass[j].sys, at |-> obs]
Sum == /\ pc = "sum" /\ i <= NO
       /\ LET old == IF Len(field) < i THEN <<>> ELSE field[i]
              new == IF AddUp THEN Append(old, Term) ELSE <<Term>>
          IN field' = IF Len(field) < i THEN Append(field, new) ELSE [field EXCEPT ![i] = new]
       /\ IF j < NM THEN j' = j + 1 /\ i' = i ELSE j' = 1 /\ i' = i + 1
       /\ UNCHANGED <<given, obsgiven, mass, obs, pos, pc>>
Write == /\ pc = "sum" /\ i > NO /\ pc' = "written"
         /\ UNCHANGED <<given, obsgiven, mass, obs, pos, field, i, j>>
Next == Heights \/ Ecef \/ Build \/ Wgs84 \/ Report \/ Frame \/ Sum \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C13 *)
Right == pc = "written" =>
    /\ Len(field) = NO /\ Len(pos) = NO
    /\ \A r \in 1..NO :
          /\ pos[r] = (IF obsgiven.sys = "cart" THEN "cart" ELSE "wgs84")
          /\ Len(field[r]) = NM
          /\ \A k \in 1..NM :
                LET mine == {n \in DOMAIN field[r] : field[r][n].body = k}
                IN /\ Cardinality(mine) = 1
                   /\ \A n \in mine :
                        LET t == field[r][n]
                        IN /\ t.factor = k
                           /\ t.und = (IF given[k].sys = "ellps" /\ given[k].geoid THEN 1 ELSE 0)
                           /\ t.from = ToEcef(given[k].sys)
                           /\ t.at = ToEcef(obsgiven.sys)
Ends == <>(pc = "written")
=============================================================================
