----------------------------- MODULE GeodesyMC -----------------------------
(***************************************************************************)
(* Geodesy.tla against what defines geographic and local coordinates, over *)
(* a lattice of points, ellipsoids and origins: latitude is the direction  *)
(* of the normal to the ellipsoid, height the distance along it, longitude *)
(* the angle around the axis; a local system is a rigid frame whose axes   *)
(* are the directions in which longitude, latitude and height grow.        *)
(***************************************************************************)
EXTENDS Geodesy

CONSTANTS DLon, DLat    \* steps of the lattice, degrees

Axes2 == {<<RLit("6378137"), RLit("6356752.31424518")>>, <<RLit("6377563.396"), RLit("6356256.909")>>,
          <<RLit("6371000"), RLit("6371000")>>, <<RLit("2"), RLit("1")>>}
Heights == {RLit("-9000.5"), RLit("0"), RLit("4321.125")}
Lons == {x \in -540..540 : x % DLon = 0}
Lats == {x \in -90..90 : x % DLat = 0}

VARIABLES e, p, stage
vars == <<e, p, stage>>
Init == stage = 0 /\ e \in Axes2 /\ p = <<0, 0, RLit("0")>>
Next == stage = 0 /\ stage' = 1 /\ e' = e
        /\ p' \in {<<x, y, h>> : x \in Lons, y \in Lats, h \in Heights}
Spec == Init /\ [][Next]_vars

A == e[1]
B == e[2]
\* about 1e-26 of the ellipsoid
Tiny == RMul(RLit("1e-26"), RMax(A, 10000))
Foot == Ecef(<<p[1], p[2], 0>>, A, B)
Grad(q) == Unit(<<RDiv(q[1], RMul(A, A)), RDiv(q[2], RMul(A, A)), RDiv(q[3], RMul(B, B))>>)
OnEllipsoid ==
    stage = 1 =>
    LET q == Foot
        r == RAdd(RMul(q[1], q[1]), RMul(q[2], q[2]))
    IN Near(RAdd(RDiv(r, RMul(A, A)), RDiv(RMul(q[3], q[3]), RMul(B, B))), 1, RLit("1e-27"))
\* latitude: elevation of the normal; longitude: its azimuth around the axis
Normal ==
    stage = 1 =>
    LET n == Grad(Foot)
        t == RLit("1e-26")
    IN /\ Near(n[3], RSin(Rad(p[2])), t)
       /\ Near(RMul(n[1], RSin(Rad(p[1]))), RMul(n[2], RCos(Rad(p[1]))), t)
       /\ RLe(RLit("-1e-26"), RAdd(RMul(n[1], RCos(Rad(p[1]))), RMul(n[2], RSin(Rad(p[1])))))
HeightAlong ==
    stage = 1 => VNear(VSub(Ecef(p, A, B), Foot), VScale(p[3], Grad(Foot)), Tiny)
Anchors ==
    /\ VNear(Ecef(<<0, 0, 0>>, A, B), <<A, 0, 0>>, Tiny)
    /\ VNear(Ecef(<<90, 0, 0>>, A, B), <<0, A, 0>>, Tiny)
    /\ VNear(Ecef(<<17, 90, 0>>, A, B), <<0, 0, B>>, Tiny)
    /\ Near(RSin(Rad(30)), RLit("0.5"), RLit("1e-30"))
    /\ Near(RCos(Rad(60)), RLit("0.5"), RLit("1e-30"))
Turn == stage = 1 => VNear(Ecef(p, A, B), Ecef(<<RAdd(p[1], 360), p[2], p[3]>>, A, B), Tiny)

\* the local system at p
Loc(v) == EnuToEcef(v, p, A, B)
Axis(k) == VSub(Loc([j \in 1..3 |-> IF j = k THEN 1 ELSE 0]), Loc(VZero))
Delta(v) == VSub(Ecef(VAdd(p, v), A, B), Ecef(VSub(p, v), A, B))
D == RLit("1e-9")
Rigid ==
    stage = 1 =>
    /\ VNear(Loc(VZero), Ecef(p, A, B), Tiny)
    /\ \A i, j \in 1..3 : Near(Dot(Axis(i), Axis(j)), IF i = j THEN 1 ELSE 0, Tiny)
    /\ Near(Triple(Axis(1), Axis(2), Axis(3)), 1, Tiny)
    /\ VNear(VSub(Loc(<<3, -4, 12>>), Loc(VZero)),
             VAdd(VScale(3, Axis(1)), VAdd(VScale(-4, Axis(2)), VScale(12, Axis(3)))), RMul(100, Tiny))
Directions ==
    stage = 1 =>
    /\ VNear(Axis(3), VScale(RLit("0.5"), Delta(<<0, 0, 1>>)), Tiny)
    \* off the axis, and where the radius of curvature is positive
    /\ (p[2] \in -80..80 /\ RLt(RLit("1e4"), A)) =>
          /\ VNear(Axis(1), Unit(Delta(<<D, 0, 0>>)), RLit("1e-9"))
          /\ VNear(Axis(2), Unit(Delta(<<0, D, 0>>)), RLit("1e-9"))

\* wrapping: the longitudes in -180..180 on the meridian of x
Wrapped(x) == {w \in -180..180 : SameMeridian(w, x, RLit("1e-20"))}
Meridians ==
    /\ \A x \in -1100..1100 :
          LET w == Wrapped(x)
          IN IF x % 360 = 180 THEN w = {-180, 180}
             ELSE \E y \in -179..179 : w = {y} /\ (x - y) % 360 = 0
    /\ \A x \in -200..200 : LonIn180(x) = (x \in -180..180)
=============================================================================
