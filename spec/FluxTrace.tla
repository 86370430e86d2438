------------------------------ MODULE FluxTrace ------------------------------
(***************************************************************************)
(* Each line: the gravity vectors GEEC gives for some bodies at the nodes  *)
(* of a quadrature over a sphere.  Gauss: the flux is -4 pi Gc times the   *)
(* mass inside the sphere.  A body is well inside the sphere, well outside *)
(* it, or has the sphere well inside itself.                               *)
(***************************************************************************)
EXTENDS Newton, Json, IOUtils
Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
HullEps(p) == RMul(RLit("1e-9"), RAdd(Size(p), RMul(RLit("1e-3"), PMax(p))))

\* a quadrature: weights w and unit vectors u, exact on polynomials of degree 2
Quadrature(r) ==
    LET s == Fold(LAMBDA a, i : RAdd(a, r.w[i]), 0, [i \in DOMAIN r.w |-> i])
        m(i, j) == Fold(LAMBDA a, k : RAdd(a, RMul(r.w[k], RMul(r.u[k][i], r.u[k][j]))), 0,
                        [k \in DOMAIN r.w |-> k])
        e == RLit("1e-12")
    IN /\ Near(s, RMul(4, RPi), e)
       /\ \A k \in DOMAIN r.u : Near(Dot(r.u[k], r.u[k]), 1, e)
       /\ \A i \in 1..3, j \in 1..3 : Near(m(i, j), IF i = j THEN RDiv(RMul(4, RPi), 3) ELSE 0, e)
Rel(b, r) ==
    LET d == Fold(LAMBDA m, p : RMax(m, Norm(VSub(p, r.c))), 0, b.pts)
        h(t) == Dot(Unit(AreaVec(b.pts, t)), VSub(b.pts[t[1]], r.c))
        hs == Fold(LAMBDA m, t : RMin(m, h(t)), d, b.tri)
    IN IF RLe(d, RMul(RLit("0.55"), r.r)) THEN "in"
       ELSE IF RLe(RMul(RLit("1.8"), r.r), hs) THEN "around"
       ELSE IF RLe(hs, RMul(RLit("-1.8"), r.r)) THEN "out" ELSE "oracle"
Enclosed(b, r) ==
    CASE Rel(b, r) = "in" -> Volume(b.pts, b.tri)
      [] Rel(b, r) = "around" -> RMul(RMul(RDiv(4, 3), RPi), RMul(r.r, RMul(r.r, r.r)))
      [] OTHER -> 0
\* the largest flux expected
Scale(b, r) == RMax(Volume(b.pts, b.tri), RMul(r.r, RMul(r.r, r.r)))
Sum(F(_), s) == Fold(LAMBDA a, x : RAdd(a, F(x)), 0, s)
Verdict(r) ==
    LET flux == RMul(RMul(r.r, r.r),
                     Fold(LAMBDA a, i : RAdd(a, RMul(r.w[i], Dot(r.G[i], r.u[i]))), 0,
                          [i \in DOMAIN r.w |-> i]))
        k(b) == RMul(RMul(RMul(-4, RPi), RMul(b.rho, b.gc)), MGal)
        want == Sum(LAMBDA b : RMul(k(b), Enclosed(b, r)), r.bodies)
        tol == RMul(RLit("2e-6"), Sum(LAMBDA b : RMul(RAbs(k(b)), Scale(b, r)), r.bodies))
    IN IF ~Quadrature(r) \/ \E i \in DOMAIN r.bodies :
             \/ Rel(r.bodies[i], r) = "oracle"
             \/ ~IsHull(r.bodies[i].pts, r.bodies[i].tri, HullEps(r.bodies[i].pts))
       THEN {"oracle-flux"}
       ELSE IF ~r.ok THEN {"raised"}
       ELSE IF Near(flux, want, tol) THEN {} ELSE {"flux"}
VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == Verdict(Lines[l])
           IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
