------------------------------ MODULE PairTrace ------------------------------
(***************************************************************************)
(* Each line: the field of a body at a station (A), and that of the same   *)
(* body after a similarity  x -> k R x + d  (R orthogonal), with its       *)
(* points permuted, repeated, completed, its density multiplied by f and   *)
(* Gc by e (B).                                                            *)
(***************************************************************************)
EXTENDS Newton, Json, IOUtils
Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
HullEps(p) == RMul(RLit("1e-9"), RAdd(Size(p), RMul(RLit("1e-3"), PMax(p))))
Image(r, x) == VAdd(VScale(r.k, MVec(r.R, x)), r.d)
PosTol(r, M) == RMul(RLit("1e-14"), RAdd(RMul(r.k, M), VMaxAbs(r.d)))
Orthogonal(R) == MNear(MMul(R, MTrans(R)), <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, RLit("1e-14"))
\* the first Len(pts) points of B, reordered by r.at, are images of those of A
IsImage(r, M) ==
    /\ Orthogonal(r.R)
    /\ \A i \in DOMAIN r.pts : VNear(r.pts2[r.at[i]], Image(r, r.pts[i]), PosTol(r, M))
    /\ VNear(r.obs2, Image(r, r.obs), PosTol(r, M))
    /\ IsHull(r.pts2, [t \in DOMAIN r.tri |-> r.tri2[t]], HullEps(r.pts2))
Scaled(r, x) == RMul(r.k, x)
Verdict(r) ==
    LET f == TLCEval(Field(r.pts, r.tri, r.obs))
        M == RMax(PMax(r.pts), VMaxAbs(r.obs))
        f2 == TLCEval(Field(r.pts2, r.tri2, r.obs2))
        M2 == RMax(PMax(r.pts2), VMaxAbs(r.obs2))
        kA == RMul(r.rho, r.gc)
        kB == RMul(kA, RMul(r.f, r.e))
        tg == RMul(RAbs(RMul(kB, MGal)), RAdd(RMul(r.k, TolG(f, M)), TolG(f2, M2)))
        tt == RMul(RAbs(RMul(kB, Eotvos)), RAdd(TolT(f, M), TolT(f2, M2)))
        m == RMul(r.f, r.e)
        off == (Inside(f, M) \/ Outside(f, M)) /\ (Inside(f2, M2) \/ Outside(f2, M2))
    IN IF ~IsImage(r, M) \/ ~IsHull(r.pts, r.tri, HullEps(r.pts)) THEN {"oracle-image"}
       ELSE IF OnVertex(f) \/ OnVertex(f2) THEN {}
       ELSE IF ~r.ok THEN {"raised"}
       ELSE (IF VNear(r.G2, VScale(RMul(m, r.k), MVec(r.R, r.G)), tg) THEN {} ELSE {"G-image"})
         \cup (IF ~off \/ MNear(r.T2, MScale(m, MMul(MMul(r.R, r.T), MTrans(r.R))), tt)
               THEN {} ELSE {"T-image"})
VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == Verdict(Lines[l])
           IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
