-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* A body is the convex hull of a finite sequence P of points.  Its        *)
(* boundary is given by outward oriented triangles, as triples of indices  *)
(* into P (counterclockwise seen from outside).                            *)
(***************************************************************************)
EXTENDS Vec3, FiniteSets

PMax(P) == Fold(LAMBDA m, p : RMax(m, VMaxAbs(p)), 0, P)
\* extent of the body: largest distance to the first point, by coordinates
Size(P) == Fold(LAMBDA m, p : RMax(m, VMaxAbs(VSub(p, P[1]))), 0, P)

AreaVec(P, t) == Cross(VSub(P[t[2]], P[t[1]]), VSub(P[t[3]], P[t[1]]))

(* Tri is the boundary of the convex hull of P: no point is beyond the plane
   of a triangle, and each directed side appears once, in opposite direction
   in another triangle.  eps: what may be left out by rounding the vertices. *)
Sides(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
Supports(P, t, eps) ==
    LET a == AreaVec(P, t)
        k == RMul(Norm(a), eps)
    IN \A i \in DOMAIN P : RLe(Dot(a, VSub(P[i], P[t[1]])), k)
ClosedIndex(Tri) ==
    LET all == UNION {Sides(Tri[i]) : i \in DOMAIN Tri}
    IN /\ Cardinality(all) = 3 * Len(Tri)
       /\ \A e \in all : <<e[2], e[1]>> \in all
IsHull(P, Tri, eps) ==
    /\ Len(Tri) >= 4
    /\ ClosedIndex(Tri)
    /\ \A i \in DOMAIN Tri : Supports(P, Tri[i], eps)

Volume6(P, Tri) ==
    Fold(LAMBDA v, t : RAdd(v, Triple(VSub(P[t[1]], P[1]), VSub(P[t[2]], P[1]),
                                       VSub(P[t[3]], P[1]))), 0, Tri)
Volume(P, Tri) == RDiv(Volume6(P, Tri), 6)

(* The hull from its definition, for few points: every plane through three
   points that has all the others on its inner side is a face plane; a face
   is the set of its points.  Exact (doubles are multiplied exactly enough). *)
Side(P, a, i, t) == LET d == Dot(a, VSub(P[i], P[t[1]])) IN d
FaceTriples(P) ==
    {t \in {u \in (1..Len(P)) \X (1..Len(P)) \X (1..Len(P)) :
                u[1] < u[2] /\ u[1] < u[3] /\ u[2] # u[3]} :
        LET a == AreaVec(P, t)
            n == RMul(RLit("1e-26"), RMul(Norm(a), Size(P)))
        IN /\ RLt(0, Norm(a))
           /\ \A i \in DOMAIN P : RLe(Dot(a, VSub(P[i], P[t[1]])), n)}
FacePoints(P, t) ==
    LET a == AreaVec(P, t)
        n == RMul(RLit("1e-26"), RMul(Norm(a), Size(P)))
    IN {i \in DOMAIN P : RLe(RAbs(Dot(a, VSub(P[i], P[t[1]]))), n)}
Faces(P) == {FacePoints(P, t) : t \in FaceTriples(P)}
\* six times the volume, from faces: the largest triangles' fan is not needed,
\* the directed boundary sides of each face suffice
FaceSides(P, F, t) ==
    LET a == AreaVec(P, t)
        left(i, j, k) == Dot(a, Cross(VSub(P[j], P[i]), VSub(P[k], P[i])))
        z == RMul(RLit("1e-26"), RMul(Dot(a, a), 1))
        between(i, j, k) == LET u == VSub(P[i], P[k]) v == VSub(P[j], P[k])
                            IN RLe(Dot(u, v), 0)
    IN {e \in F \X F :
          /\ e[1] # e[2]
          /\ P[e[1]] # P[e[2]]
          /\ \A k \in F : RLe(RNeg(z), left(e[1], e[2], k))
          /\ \A k \in F : RLe(RAbs(left(e[1], e[2], k)), z)
                            => between(e[1], e[2], k)}
=============================================================================
