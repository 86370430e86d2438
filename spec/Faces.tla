-------------------------------- MODULE Faces --------------------------------
(***************************************************************************)
(* What the faces of a body must be.  P: the points it was built from; F:  *)
(* its faces, each a record with corners c (a sequence of points) and unit *)
(* normal n.                                                               *)
(***************************************************************************)
EXTENDS Body

\* what rounding may do to a coordinate; to the direction of a normal
Eps(P) == RAdd(RMul(RLit("1e-12"), Size(P)), RMul(RLit("1e-14"), PMax(P)))

Corners(f) == DOMAIN f.c
Nx(f, i) == (i % Len(f.c)) + 1
Longest(f) == Fold(LAMBDA m, i : RMax(m, Norm(VSub(f.c[Nx(f, i)], f.c[i]))), 0,
                   [i \in Corners(f) |-> i])
\* vector area of a polygon: points to the side from which it is ccw
PolyArea(f) ==
    VScale(RLit("0.5"), Fold(LAMBDA v, i : VAdd(v, Cross(VSub(f.c[i], f.c[1]),
                                                         VSub(f.c[Nx(f, i)], f.c[1]))),
                             VZero, [i \in Corners(f) |-> i]))

(* every corner is one of the points *)
OfPoints(P, F) == \A k \in DOMAIN F : \A i \in Corners(F[k]) :
                     \E j \in DOMAIN P : P[j] = F[k].c[i]
UnitNormals(F) == \A k \in DOMAIN F : Near(Dot(F[k].n, F[k].n), 1, RLit("1e-12"))
\* no point beyond the plane of a face, by more than the direction of the normal
\* of a small face allows
Outward(P, F) ==
    \A k \in DOMAIN F :
        LET f == F[k]
            a == PolyArea(f)
            el == RDiv(RMul(Longest(f), Longest(f)), Norm(a))
            tol == RMul(RAdd(10, RMul(el, RDiv(Size(P), Longest(f)))), Eps(P))
        IN \A j \in DOMAIN P : RLe(Dot(f.n, VSub(P[j], f.c[1])), tol)
InPlane(P, F) ==
    \A k \in DOMAIN F :
        LET f == F[k]
            a == PolyArea(f)
            el == RDiv(RMul(Longest(f), Longest(f)), Norm(a))
            tol == RMul(RAdd(10, el), Eps(P))
        IN \A i \in Corners(f) : RLe(RAbs(Dot(f.n, VSub(f.c[i], f.c[1]))), tol)
\* counterclockwise seen from outside: the vector area is along the normal
Ccw(F) == \A k \in DOMAIN F :
             LET a == PolyArea(F[k]) IN RLt(RMul(RLit("0.999"), Norm(a)), Dot(a, F[k].n))
\* the edges of a face run along its corners, in order, from any one
Edges(F) == \A k \in DOMAIN F :
               LET f == F[k] IN
               /\ Len(f.e) = Len(f.c)
               /\ \E o \in Corners(f) : \A i \in Corners(f) :
                     LET j == ((i + o - 2) % Len(f.c)) + 1
                     IN f.e[i] = <<f.c[j], f.c[Nx(f, j)]>>
\* no side of no length, and no face of no area
Proper(F) == \A k \in DOMAIN F :
                /\ Len(F[k].c) >= 3
                /\ \A i \in Corners(F[k]) : F[k].c[i] # F[k].c[Nx(F[k], i)]
                /\ RLt(0, Norm(PolyArea(F[k])))
\* each directed side once, and once in the opposite direction
SidesOf(F) == UNION {{<<F[k].c[i], F[k].c[Nx(F[k], i)]>> : i \in Corners(F[k])} : k \in DOMAIN F}
NSides(F) == Fold(LAMBDA n, f : n + Len(f.c), 0, F)
Closed(F) == LET S == SidesOf(F) IN /\ Cardinality(S) = NSides(F)
                                    /\ \A s \in S : <<s[2], s[1]>> \in S
Enclosed(F) ==
    LET o == F[1].c[1]
    IN RDiv(Fold(LAMBDA v, f : RAdd(v, Dot(VSub(f.c[1], o), PolyArea(f))), 0, F), 3)
BodySize3(P) == RMul(Size(P), RMul(Size(P), Size(P)))
VolumeTol(P) == RMul(RMul(RLit("60"), RMul(Size(P), Size(P))), Eps(P))

Verdict(P, F, vol) ==
    (IF Len(F) >= 4 /\ OfPoints(P, F) /\ Proper(F) THEN {} ELSE {"corners"})
    \cup (IF ~Proper(F) THEN {} ELSE
          (IF UnitNormals(F) THEN {} ELSE {"unit"})
          \cup (IF Outward(P, F) THEN {} ELSE {"outward"})
          \cup (IF InPlane(P, F) THEN {} ELSE {"plane"})
          \cup (IF Ccw(F) THEN {} ELSE {"ccw"})
          \cup (IF Edges(F) THEN {} ELSE {"edges"})
          \cup (IF Closed(F) THEN {} ELSE {"closed"})
          \cup (IF Near(Enclosed(F), vol, VolumeTol(P)) THEN {} ELSE {"volume"}))
=============================================================================
