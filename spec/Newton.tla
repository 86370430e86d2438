------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* The field a homogeneous body makes, by Newton's law: the attraction     *)
(*     g(s) = Gc rho  integral over the body of (p - s) / |p - s|^3        *)
(* and its derivative, as the closed form of Werner and Scheeres (1997)    *)
(* over the boundary triangles.  (The implementation uses another form, of *)
(* Singh and Guptasarma (2001).)                                           *)
(* Field returns both for Gc rho = 1, in metres and without dimension.     *)
(***************************************************************************)
EXTENDS Body

MGal == 100000          \* 1 m s-2 = 1e5 mGal
Eotvos == 1000000000    \* 1 s-2 = 1e9 E

\* solid angle of a triangle seen from the origin (Van Oosterom, Strackee)
SolidAngle(a, b, c, la, lb, lc) ==
    RMul(2, RAtan2(Triple(a, b, c),
        RAdd(RAdd(RMul(RMul(la, lb), lc), RMul(la, Dot(b, c))),
             RAdd(RMul(lb, Dot(c, a)), RMul(lc, Dot(a, b))))))

\* the smallest of a and b, leaving out what is nil (less than z)
NZMin(z, a, b) == IF RLt(a, z) THEN b ELSE IF RLt(b, z) THEN a ELSE RMin(a, b)

\* one triangle: r are the three corners seen from the station, l their norms
TriField(r, l) ==
    LET ar == Cross(VSub(r[2], r[1]), VSub(r[3], r[1]))
        n == Unit(ar)
        h == Dot(n, r[1])
        w == IF RLe(RAbs(h), RMul(RLit("1e-27"), l[1])) THEN 0
             ELSE SolidAngle(r[1], r[2], r[3], l[1], l[2], l[3])
        side(i) ==
            LET j == (i % 3) + 1
                e == VSub(r[j], r[i])
                len == Norm(e)
                \* outward normal of the side in the plane of the triangle
                m == Cross(VScale(RDiv(1, len), e), n)
                d == RSub(RAdd(l[i], l[j]), len)
                \* station on the side: log is infinite but its factor null
                k == IF RLe(d, RMul(RLit("1e-26"), len)) THEN 0
                     ELSE RLog(RDiv(RAdd(RAdd(l[i], l[j]), len), d))
            IN TLCEval([g |-> RMul(Dot(m, r[i]), k), t |-> VScale(k, m),
                        l2 |-> Dot(e, e),
                        \* squared distance to the side, about
                        d2 |-> RMul(RAbs(d), RMul(RLit("0.5"), len)),
                        \* distance to the line that carries the side
                        q |-> RDiv(Norm(Cross(e, r[i])), len)])
        s1 == TLCEval(side(1))
        s2 == TLCEval(side(2))
        s3 == TLCEval(side(3))
        gk == RSub(RMul(h, w), RAdd(s1.g, RAdd(s2.g, s3.g)))
        tv == VSub(VAdd(s1.t, VAdd(s2.t, s3.t)), VScale(w, n))
    IN TLCEval([g |-> VScale(gk, n), t |-> Outer(n, tv), w |-> w, h |-> h,
                d2 |-> RMin(s1.d2, RMin(s2.d2, s3.d2)),
                el |-> RDiv(RMax(s1.l2, RMax(s2.l2, s3.l2)), Norm(ar)),
                q |-> NZMin(RMul(RLit("1e-17"), l[1]),
                            NZMin(RMul(RLit("1e-17"), l[1]), s1.q, s2.q), s3.q)])

(* g: attraction, t: its derivative (t[i][j] = d g[i] / d s[j]), w: total solid
   angle, far: distance to the farthest vertex, near: to the nearest one,
   hmin: smallest distance to a face plane that is not null,
   hin: smallest signed distance below a face plane (> 0: station inside),
   d2: squared distance to the nearest side, about,
   q: smallest distance to the line that carries a side, if not nil,
   el: elongation of the thinnest triangle *)
Field(P, Tri, s) ==
    LET R == TLCEval([i \in DOMAIN P |-> VSub(P[i], s)])
        L == TLCEval([i \in DOMAIN P |-> Norm(R[i])])
        far == Fold(LAMBDA m, x : RMax(m, x), 0, L)
        one(acc, t) ==
            LET f == TLCEval(TriField(<<R[t[1]], R[t[2]], R[t[3]]>>,
                                      <<L[t[1]], L[t[2]], L[t[3]]>>))
                a == RAbs(f.h)
            IN [g |-> VAdd(acc.g, f.g), t |-> MAdd(acc.t, f.t),
                w |-> RAdd(acc.w, f.w),
                hin |-> RMin(acc.hin, f.h),
                hmin |-> IF RLe(a, RMul(RLit("1e-22"), far)) THEN acc.hmin
                         ELSE RMin(acc.hmin, a),
                d2 |-> RMin(acc.d2, f.d2),
                el |-> RMax(acc.el, f.el),
                q |-> NZMin(RMul(RLit("1e-17"), far), acc.q, f.q)]
        f == Fold(one, [g |-> VZero, t |-> MZero, w |-> 0, hin |-> far,
                        hmin |-> far, d2 |-> RMul(far, far), q |-> far, el |-> 1], Tri)
    IN TLCEval([g |-> f.g, t |-> f.t, w |-> f.w, far |-> far,
                near |-> Fold(LAMBDA m, x : RMin(m, x), far, L),
                hmin |-> f.hmin, hin |-> f.hin, d2 |-> f.d2, q |-> f.q,
                el |-> f.el])

\* beyond doubt inside or outside; M: the largest coordinate (the direction of the
\* plane of a thin triangle is known up to the rounding of its short side)
Fuzz(f, M) == RAdd(RMul(RAdd(RLit("1e-13"), RMul(RLit("4e-15"), f.el)), f.far),
                   RMul(RLit("4e-14"), M))
Inside(f, M)  == RLt(Fuzz(f, M), f.hin)
Outside(f, M) == RLt(f.hin, RNeg(Fuzz(f, M)))
OnVertex(f) == RLe(f.near, RMul(RLit("1e-13"), f.far))

(* What the rounding of double precision may do to the implementation's result
   (for Gc rho = 1), with a wide margin (see DESIGN.md, calibration): the shape
   of the body itself is known up to the rounding of its coordinates (M), the
   derivative is ill conditioned close to a face plane, to an edge, or to the
   line that carries it (but not on that line). *)
TolG(f, M) ==
    LET d == RMin(RDiv(f.far, RSqrt(f.d2)), RInt(4000))
    IN RAdd(RMul(f.far, RAdd(RMul(RLit("1e-13"), RAdd(10, f.el)),
                             RMul(RLit("1e-14"), IF RLt(0, d) THEN d ELSE 4000))),
            RMul(RLit("4e-13"), M))
TolT(f, M) ==
    LET a == RMin(RDiv(f.far, f.hmin), RInt(10000000))
        b == RDiv(RMul(f.far, f.far), f.d2)
        c == RDiv(f.far, f.q)
    IN RAdd(RMul(RLit("2e-13"), RAdd(RAdd(10, c), RAdd(a, b))),
            RDiv(RMul(RLit("4e-13"), M), RSqrt(f.d2)))
=============================================================================
