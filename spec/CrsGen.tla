------------------------------- MODULE CrsGen -------------------------------
(***************************************************************************)
(* Histories of conversions for the replay, printed as JSON.  GSpec:       *)
(* every sequence of Depth operations from every kind of dataset           *)
(* (exhaustive).  RSpec: random histories over several datasets            *)
(* (-simulate).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Gen == TLCEval(JsonDeserialize(IOEnv.GEN))
Depth == Gen.depth
NDs == Gen.datasets

\* ellipsoid 1 is WGS84; origins and ellipsoids are numbers, the replay picks values
Sys == {"ellps", "enu", "ecef", "cart"}
VD == {"ellps", "egm84", "egm96", "egm2008"}
Kinds == [sys : {"ellps"}, ell : 1..2, org : {1}, vd : VD]
         \cup [sys : {"enu"}, ell : 1..2, org : {1}, vd : {"ellps", "egm96"}]
         \cup [sys : {"ecef", "cart"}, ell : {1}, org : {1}, vd : {"ellps"}]
Ops == [op : {"ecef", "wgs84", "lon180", "height"}, org : {1}]
       \cup [op : {"enu"}, org : 1..2]

VARIABLES kinds, hist
vars == <<kinds, hist>>

GInit == /\ \E k \in Kinds : kinds = <<k>>
         /\ hist = <<>>
GNext == \/ /\ Len(hist) < Depth
            /\ \E o \in Ops : hist' = Append(hist, [ds |-> 1, op |-> o.op, org |-> o.org,
                                                     via |-> 1])
            /\ UNCHANGED kinds
         \/ /\ Len(hist) = Depth
            /\ PrintT("SCN " \o ToJson([kinds |-> kinds, ops |-> hist]))
            /\ hist' = Append(hist, "end")
            /\ UNCHANGED kinds
GSpec == GInit /\ [][GNext]_vars

Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
RInit == kinds = <<>> /\ hist = <<>>
RNext == \/ /\ kinds = <<>>
            /\ kinds' = [i \in 1..NDs |->
                  LET s == Pick(1..8)
                  IN [sys |-> CASE s <= 4 -> "ellps" [] s <= 6 -> "enu"
                               [] s = 7 -> "ecef" [] OTHER -> "cart",
                      ell |-> Pick(1..6), org |-> Pick(1..8), vd |-> Pick(VD)]]
            /\ UNCHANGED hist
         \/ /\ kinds # <<>> /\ Len(hist) < Depth
            /\ hist' = Append(hist, TLCEval([ds |-> Pick(1..NDs),
                                     op |-> Gen.ops[Pick(DOMAIN Gen.ops)],
                                     org |-> Pick(1..8), via |-> Pick(1..3)]))
            /\ UNCHANGED kinds
         \/ /\ Len(hist) = Depth
            /\ PrintT("SCN " \o ToJson([kinds |-> kinds, ops |-> hist]))
            /\ hist' = Append(hist, "end")
            /\ UNCHANGED kinds
RSpec == RInit /\ [][RNext]_vars
=============================================================================
