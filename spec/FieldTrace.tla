----------------------------- MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Trace specification for single evaluations of the field: each line of   *)
(* the trace is one call of the implementation (a body, a station, what it *)
(* returned), and the verdict on it the set of clauses it breaks.          *)
(***************************************************************************)
EXTENDS Newton, Json, IOUtils

File == IOEnv.TRACE
Lines == TLCEval(ndJsonDeserialize(File))

Pts(r) == r.pts
HullEps(r) == RMul(RLit("1e-9"), RAdd(Size(r.pts), RMul(RLit("1e-3"), PMax(r.pts))))

Ratio(a, b, tol) == RDiv(VMaxAbs(VSub(a, b)), tol)

Verdict(r) ==
    LET f == TLCEval(Field(r.pts, r.tri, r.obs))
        M == RMax(PMax(r.pts), VMaxAbs(r.obs))
        k == RMul(r.rho, r.gc)
        eg == VScale(RMul(k, MGal), f.g)
        et == MScale(RMul(k, Eotvos), f.t)
        tolg == RMul(RAbs(RMul(k, MGal)), TolG(f, M))
        tolt == RMul(RAbs(RMul(k, Eotvos)), TolT(f, M))
        offsurf == Inside(f, M) \/ Outside(f, M)
        pi4 == RMul(RPi, -4)
    IN IF ~IsHull(r.pts, r.tri, HullEps(r)) THEN {"oracle-hull"}
       ELSE IF OnVertex(f) THEN {}
       ELSE IF ~r.ok THEN {"raised"}
       ELSE (IF VFinite(r.G) THEN {} ELSE {"G-not-finite"})
         \cup (IF VNear(r.G, eg, tolg) THEN {} ELSE {"G"})
         \cup (IF ~r.grad \/ ~offsurf THEN {}
               ELSE (IF MNear(r.T, et, tolt) THEN {} ELSE {"T"})
               \cup (IF MNear(r.T, MTrans(r.T), tolt) THEN {} ELSE {"T-symmetric"})
               \cup (IF Near(Trace3(r.T),
                             IF Inside(f, M) THEN RMul(RMul(k, Eotvos), pi4) ELSE 0,
                             RMul(3, tolt)) THEN {} ELSE {"T-trace"}))

\* for calibration: errors and what the tolerances depend on
Calib(r) ==
    LET f == TLCEval(Field(r.pts, r.tri, r.obs))
        M == RMax(PMax(r.pts), VMaxAbs(r.obs))
        k == RMul(r.rho, r.gc)
    IN [id |-> r.id,
        eg |-> RShow(RDiv(VMaxAbs(VSub(r.G, VScale(RMul(k, MGal), f.g))), RMul(k, MGal))),
        et |-> IF r.grad /\ (Inside(f, M) \/ Outside(f, M))
               THEN RShow(RDiv(MMaxAbs(MSub(r.T, MScale(RMul(k, Eotvos), f.t))),
                               RMul(k, Eotvos)))
               ELSE "0",
        g |-> RShow(VMaxAbs(f.g)), t |-> RShow(MMaxAbs(f.t)),
        far |-> RShow(f.far), near |-> RShow(f.near), hmin |-> RShow(f.hmin),
        hin |-> RShow(f.hin), d2 |-> RShow(f.d2), M |-> RShow(M),
        tolg |-> RShow(TolG(f, M)), tolt |-> RShow(TolT(f, M))]

VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == Verdict(Lines[l])
           IN /\ v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
              /\ "CALIB" \in DOMAIN IOEnv /\ Lines[l].ok /\ RShow(RMul(Lines[l].rho, Lines[l].gc)) # RShow(0) => PrintT("CALIB " \o ToJson(Calib(Lines[l])))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
