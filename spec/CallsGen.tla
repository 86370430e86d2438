------------------------------ MODULE CallsGen ------------------------------
(***************************************************************************)
(* Random histories of Stations.tla, printed as JSON for the replay: run   *)
(* with -simulate.  Bodies 1..NB, stations 1..NS; the replay puts station  *)
(* NS on a vertex of body 1, so that calls fail there; body NB shares its  *)
(* array of points with body 1.                                            *)
(***************************************************************************)
EXTENDS Stations, Json, IOUtils, TLC

Gen == TLCEval(JsonDeserialize(IOEnv.GEN))
NB == Gen.bodies
NS == Gen.stations
Depth == Gen.depth
Kinds == Gen.kinds      \* operations, and faults, to draw from
Faults == Gen.faults
GStation == 1..NS
GBody == 1..NB
GFlags == [phys : 1..3, grad : BOOLEAN]
VARIABLE hist
gvars == <<acc, hist>>

Ats == 1..30
Steps == {1, 4, 15, 60}
\* depends on the state, or TLC would draw once for all
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Draw ==    [op |-> Kinds[Pick(DOMAIN Kinds)],
            s |-> Pick(1..NS),
            b |-> Pick(1..NB),
            bs |-> [i \in 1..<<0, 1, 1, 2, 2, 3, 3, 5, 12>>[Pick(1..9)] |-> Pick(1..NB)],
            single |-> Pick(BOOLEAN),
            phys |-> Pick(1..3),
            grad |-> Pick(BOOLEAN),
            fault |-> Faults[Pick(DOMAIN Faults)],
            at |-> Pick(Ats) * Pick(Steps)]

GInit == Init /\ hist = <<>>
Act == /\ Len(hist) < Depth
       /\ LET d == TLCEval(Draw)
          IN /\ hist' = Append(hist, d)
             /\ IF d.op = "compute" /\ d.fault = "none"
                THEN Compute(d.s, d.bs, [phys |-> d.phys, grad |-> d.grad])
                ELSE Fail(d.s, d.bs, d.grad)
Emit == /\ Len(hist) = Depth
        /\ PrintT("SCN " \o ToJson(hist))
        /\ hist' = Append(hist, "end")
        /\ UNCHANGED acc
GNext == Act \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
