------------------------------ MODULE Geodesy ------------------------------
(***************************************************************************)
(* Where points are.  A reference system is a record:                      *)
(*   sys   "cart", "ecef", "ellps" or "enu"                                *)
(*   a, b  semi-axes of its ellipsoid (ellps, enu)                         *)
(*   org   longitude, latitude, height of the origin (enu)                 *)
(* Coordinates are longitude, latitude (degrees), height for ellps; east,  *)
(* north, up for enu; x, y, z otherwise (metres).                          *)
(***************************************************************************)
EXTENDS Vec3

Rad(d) == RMul(d, RDiv(RPi, 180))

\* longitude, latitude, height above the ellipsoid of semi-axes a, b
Ecef(p, a, b) ==
    LET ln == Rad(p[1])
        lt == Rad(p[2])
        cl == RCos(lt)
        sl == RSin(lt)
        a2 == RMul(a, a)
        b2 == RMul(b, b)
        n == RDiv(a2, RSqrt(RAdd(RMul(a2, RMul(cl, cl)), RMul(b2, RMul(sl, sl)))))
        r == RMul(RAdd(n, p[3]), cl)
    IN TLCEval(<<RMul(r, RCos(ln)), RMul(r, RSin(ln)),
                 RMul(RAdd(RMul(n, RDiv(b2, a2)), p[3]), sl)>>)

\* east, north, up at origin o
EnuToEcef(p, o, a, b) ==
    LET ln == Rad(o[1])
        lt == Rad(o[2])
        cl == RCos(lt)
        sl == RSin(lt)
        co == RCos(ln)
        so == RSin(ln)
        e == <<RNeg(so), co, 0>>
        n == <<RNeg(RMul(sl, co)), RNeg(RMul(sl, so)), cl>>
        u == <<RMul(cl, co), RMul(cl, so), sl>>
    IN VAdd(Ecef(o, a, b), VAdd(VScale(p[1], e), VAdd(VScale(p[2], n), VScale(p[3], u))))

\* the physical position of a point, in Earth-centred coordinates
Position(p, c) == CASE c.sys = "ellps" -> Ecef(p, c.a, c.b)
                    [] c.sys = "enu" -> EnuToEcef(p, c.org, c.a, c.b)
                    [] OTHER -> p

\* x and y are the same meridian
Turns(x, y) == RDiv(RSub(x, y), 360)
SameMeridian(x, y, tol) ==
    LET t == Turns(x, y)
        k == RFloor(RAdd(t, RLit("0.5")))
    IN RLe(RMul(360, RAbs(RSub(t, k))), tol)
LonIn180(x) == RLe(-180, x) /\ RLe(x, 180)

(* Undulations of the synthetic geoids (harness/shim.py), linear in latitude
   and in the angle to the meridian 30 E; egm84 is the real model, for which the trace
   brings the values of its grid at the corners of the cell of the point. *)
Synth == [egm96 |-> <<RLit("12"), RLit("0.3"), RLit("-0.15")>>,
          egm2008 |-> <<RLit("-21"), RLit("-0.24"), RLit("0.21")>>]
Angle30(x) == LET y == RSub(x, 30)
                  k == RFloor(RAdd(RDiv(y, 360), RLit("0.5")))
              IN RAbs(RSub(y, RMul(360, k)))
Undulation(vd, p) == LET s == Synth[vd]
                     IN RAdd(s[1], RAdd(RMul(s[2], p[2]), RMul(s[3], Angle30(p[1]))))
\* far from the kinks of the synthetic geoids
Plain(p) == /\ RLe(RLit("2.5"), Angle30(p[1])) /\ RLe(Angle30(p[1]), RLit("177.5"))
            /\ RLe(RAbs(p[2]), RLit("87"))
UndulationTol(vd, p) == IF Plain(p) THEN RLit("0.004") ELSE RLit("1.5")
=============================================================================
