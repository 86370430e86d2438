-------------------------------- MODULE Vec3 --------------------------------
(* Vectors of three reals (see Flt), as sequences, and 3x3 matrices by rows. *)
EXTENDS Flt, Integers, Sequences, SequencesExt, TLC

VZero == <<0, 0, 0>>
VAdd(a, b) == TLCEval(<<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>)
VSub(a, b) == TLCEval(<<RSub(a[1], b[1]), RSub(a[2], b[2]), RSub(a[3], b[3])>>)
VScale(k, a) == TLCEval(<<RMul(k, a[1]), RMul(k, a[2]), RMul(k, a[3])>>)
VNeg(a) == VScale(-1, a)
Dot(a, b) == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
Cross(a, b) == TLCEval(<<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                         RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                         RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>)
Norm(a) == RSqrt(Dot(a, a))
Unit(a) == LET n == Norm(a) IN TLCEval(<<RDiv(a[1], n), RDiv(a[2], n), RDiv(a[3], n)>>)
Triple(a, b, c) == Dot(a, Cross(b, c))

MZero == <<VZero, VZero, VZero>>
MAdd(a, b) == TLCEval(<<VAdd(a[1], b[1]), VAdd(a[2], b[2]), VAdd(a[3], b[3])>>)
MScale(k, a) == TLCEval(<<VScale(k, a[1]), VScale(k, a[2]), VScale(k, a[3])>>)
Outer(a, b) == TLCEval(<<VScale(a[1], b), VScale(a[2], b), VScale(a[3], b)>>)
MVec(m, v) == TLCEval(<<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>)
MTrans(m) == <<<<m[1][1], m[2][1], m[3][1]>>,
               <<m[1][2], m[2][2], m[3][2]>>,
               <<m[1][3], m[2][3], m[3][3]>>>>
MMul(a, b) == LET c == MTrans(b)
              IN TLCEval(<<<<Dot(a[1], c[1]), Dot(a[1], c[2]), Dot(a[1], c[3])>>,
                           <<Dot(a[2], c[1]), Dot(a[2], c[2]), Dot(a[2], c[3])>>,
                           <<Dot(a[3], c[1]), Dot(a[3], c[2]), Dot(a[3], c[3])>>>>)
Trace3(m) == RAdd(RAdd(m[1][1], m[2][2]), m[3][3])

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
VMaxAbs(a) == RMax(RAbs(a[1]), RMax(RAbs(a[2]), RAbs(a[3])))
MMaxAbs(a) == RMax(VMaxAbs(a[1]), RMax(VMaxAbs(a[2]), VMaxAbs(a[3])))
MSub(a, b) == MAdd(a, MScale(-1, b))

Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
VNear(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
MNear(a, b, tol) == \A i \in 1..3 : VNear(a[i], b[i], tol)
VFinite(a) == \A i \in 1..3 : RFinite(a[i])
MFinite(a) == \A i \in 1..3 : VFinite(a[i])

\* fold over a sequence, from left to right
Fold(op(_, _), acc, s) == FoldLeft(op, acc, s)
=============================================================================
