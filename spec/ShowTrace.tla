------------------------------ MODULE ShowTrace ------------------------------
(* Each line: a body, what was seen of it and of a station in between
   computations, and both at the end, beside a body and a station nobody
   looked at. *)
EXTENDS Show, Json, IOUtils
Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
HullEps(p) == RMul(RLit("1e-9"), RAdd(Size(p), RMul(RLit("1e-3"), PMax(p))))
Looked(r, l) == IF l.look = "plot" THEN (IF Picture(l, r.faces) THEN {} ELSE {"picture"})
                ELSE (IF Text(l.body, r.pts, r.faces) THEN {} ELSE {"text"})
                     \cup (IF StationText(l) THEN {} ELSE {"station-text"})
RecVerdict(r) ==
    IF ~IsHull(r.pts, r.tri, HullEps(r.pts)) THEN {"oracle-hull"}
    ELSE IF ~r.ok THEN {"raised"}
    ELSE Verdict(r.pts, r.faces, Volume(r.pts, r.tri))
         \cup (IF Named(r.pts, r.faces) THEN {} ELSE {"names"})
         \cup UNION {Looked(r, r.looks[i]) : i \in DOMAIN r.looks}
         \cup (IF r.after = r.faces /\ r.body = r.pts THEN {} ELSE {"body-changed"})
         \cup (IF \A i \in DOMAIN r.fields : r.fields[i][1] = r.fields[i][2] THEN {}
               ELSE {"field-changed"})
VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == RecVerdict(Lines[l])
           IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
