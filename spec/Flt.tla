-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* Real numbers.  TLC has no real arithmetic: a real number is here a      *)
(* double, as the tuple <<high, low>> of the two halves of its IEEE 754    *)
(* representation (that is how the traces log every number of the          *)
(* implementation, bit for bit), or a double-double, as a tuple of four    *)
(* (about 31 significant digits), which is what these operators compute.   *)
(* They are evaluated by the Java module override java/Flt.java; the       *)
(* definitions below only declare them.  An integer stands for itself.     *)
(*                                                                         *)
(* Comparisons involving NaN are FALSE: a NaN logged by the implementation *)
(* is never within a tolerance of anything.                                *)
(***************************************************************************)
RAdd(a, b) == CHOOSE r : TRUE
RSub(a, b) == CHOOSE r : TRUE
RMul(a, b) == CHOOSE r : TRUE
RDiv(a, b) == CHOOSE r : TRUE
RNeg(a) == CHOOSE r : TRUE
RAbs(a) == CHOOSE r : TRUE
RSqrt(a) == CHOOSE r : TRUE
RLog(a) == CHOOSE r : TRUE
RExp(a) == CHOOSE r : TRUE
RSin(a) == CHOOSE r : TRUE       \* radians
RCos(a) == CHOOSE r : TRUE
RAtan2(y, x) == CHOOSE r : TRUE
RFloor(a) == CHOOSE r : TRUE
RLit(s) == CHOOSE r : TRUE       \* the number a decimal string denotes
RDouble(s) == CHOOSE r : TRUE    \* the double nearest to it
RInt(i) == CHOOSE r : TRUE
RLt(a, b) == CHOOSE r : TRUE
RLe(a, b) == CHOOSE r : TRUE
REq(a, b) == CHOOSE r : TRUE
RFinite(a) == CHOOSE r : TRUE
RPi == CHOOSE r : TRUE
RShow(a) == CHOOSE r : TRUE      \* a string, for messages
=============================================================================
