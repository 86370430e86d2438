----------------------------- MODULE InputsTrace -----------------------------
(***************************************************************************)
(* Trace specification: each line is one argument given to GEEC, whether   *)
(* it was taken, and what the station and the bodies were before and       *)
(* after.  before, after: G, T of the station, and the field of each body  *)
(* at a place of its own (computed apart).                                 *)
(***************************************************************************)
EXTENDS Inputs, Json, IOUtils

Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Must(r) == CASE r.op = "body" -> BodyMust(r.arg)
             [] r.op = "station" -> StationMust(r.arg)
             [] r.op = "call" -> CallMust(r.bodies, r.rho, r.gc)
             [] r.op = "label" -> LabelMust(r.e, r.f)
\* a station that is nowhere gives no finite number
Nonsense(v) == \E i \in 1..3 : ~RFinite(v[i])
Verdict(r) ==
    LET m == Must(r)
    IN IF ~PrintT("NOTE " \o r.op \o ": must " \o m) THEN {} ELSE
       (CASE m = "refuse" -> IF r.ok \/ (r.built /\ r.arg.shape # <<3>>) THEN {"accepted"} ELSE {}
          [] m = "accept" -> IF r.ok THEN {} ELSE {"refused"}
          [] m = "nonsense" -> IF r.ok /\ ~Nonsense(r.g) THEN {"answered"} ELSE {}
          [] OTHER -> {})
       \cup (IF r.ok /\ m # "nonsense" THEN {} ELSE IF r.before = r.after THEN {} ELSE {"changed"})

VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == Verdict(Lines[l]) IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
