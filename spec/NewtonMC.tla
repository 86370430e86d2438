------------------------------ MODULE NewtonMC ------------------------------
(***************************************************************************)
(* Newton.tla against the laws that characterise the Newtonian field,      *)
(* exhaustively over small lattices: every tetrahedron with corners in     *)
(* Corner, every station of Obs that is off its surface.  A vector field   *)
(* that is continuous, vanishes at infinity as the mass over the distance  *)
(* squared, has no curl, and whose divergence is -4 pi inside and 0        *)
(* outside, is the attraction of the body: nothing here depends on how     *)
(* Field is computed.                                                      *)
(***************************************************************************)
EXTENDS Newton

CONSTANTS N, Half      \* corners in {0..N}^3, stations at half steps in [-Half, Half]/2 

Corner == (0..N) \X (0..N) \X (0..N)
Obs == {<<RDiv(x, 2), RDiv(y, 2), RDiv(z, 2)>> :
          x \in -1..Half, y \in -1..Half, z \in -1..Half}

VARIABLES p, s, stage
vars == <<p, s, stage>>

Det(q) == LET d(i) == <<q[i][1] - q[1][1], q[i][2] - q[1][2], q[i][3] - q[1][3]>>
              a == d(2)
              b == d(3)
              c == d(4)
          IN a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1])
             + a[3] * (b[1] * c[2] - b[2] * c[1])
Lex(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
\* outward triangles of a positively oriented tetrahedron
Tri4 == <<<<1, 3, 2>>, <<1, 2, 4>>, <<1, 4, 3>>, <<2, 3, 4>>>>
Orient(q) == IF Det(q) > 0 THEN q ELSE <<q[1], q[3], q[2], q[4]>>

Init == /\ stage = 0 /\ s = <<0, 0, 0>>
        /\ p \in {<<a, b, c, d>> \in {<<0, 0, 0>>} \X Corner \X Corner \X Corner :
                     Lex(a, b) /\ Lex(b, c) /\ Lex(c, d) /\ Det(<<a, b, c, d>>) # 0}
Next == stage = 0 /\ stage' = 1 /\ s' \in Obs /\ p' = p
Spec == Init /\ [][Next]_vars

P == Orient(p)
F(x) == Field(P, Tri4, x)
Tight == RLit("1e-24")
Unit3(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
H == RLit("1e-8")

Laws ==
    stage = 1 =>
    LET f == TLCEval(F(s))
        in == Inside(f, 2)
        out == Outside(f, 2)
    IN (in \/ out) =>
       /\ IsHull(P, Tri4, RLit("1e-20"))
       \* divergence
       /\ Near(Trace3(f.t), IF in THEN RMul(-4, RPi) ELSE 0, Tight)
       /\ Near(f.w, IF in THEN RMul(4, RPi) ELSE 0, Tight)
       \* no curl
       /\ MNear(f.t, MTrans(f.t), Tight)
       \* t is the derivative of g
       /\ \A j \in 1..3 :
             LET d == VScale(RDiv(1, RMul(2, H)),
                             VSub(F(VAdd(s, VScale(H, Unit3(j)))).g,
                                  F(VSub(s, VScale(H, Unit3(j)))).g))
             IN VNear(d, MTrans(f.t)[j], RLit("1e-12"))
\* at a great distance: the mass at the centre of mass
FarLaw ==
    stage = 0 =>
    LET o == <<300000, 400000, -1200000>>
        c == VScale(RDiv(1, 4), VAdd(VAdd(P[1], P[2]), VAdd(P[3], P[4])))
        r == VSub(c, o)
        n == Norm(r)
        m == RDiv(Volume(P, Tri4), RMul(n, RMul(n, n)))
        f == F(o)
    IN VNear(f.g, VScale(m, r), RMul(RLit("1e-10"), RMul(m, n)))
\* continuity across faces: on the surface, the mean of both sides
Continuous ==
    stage = 1 =>
    LET f == TLCEval(F(s))
    IN \A j \in 1..3 :
         VNear(f.g, F(VAdd(s, VScale(RLit("1e-9"), Unit3(j)))).g, RLit("1e-6"))
\* the orientation is the only one that closes the body outward
Volumes == REq(RMul(6, Volume(P, Tri4)), IF Det(P) > 0 THEN Det(P) ELSE -Det(P))
=============================================================================
