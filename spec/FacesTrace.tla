----------------------------- MODULE FacesTrace -----------------------------
(* Each line: points, a certificate of their hull, the faces GEEC made. *)
EXTENDS Faces, Json, IOUtils
Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
HullEps(p) == RMul(RLit("1e-9"), RAdd(Size(p), RMul(RLit("1e-3"), PMax(p))))
RecVerdict(r) ==
    IF ~IsHull(r.pts, r.tri, HullEps(r.pts)) THEN {"oracle-hull"}
    ELSE IF ~r.ok THEN {"raised"}
    ELSE Verdict(r.pts, r.faces, Volume(r.pts, r.tri))
VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == RecVerdict(Lines[l])
           IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
