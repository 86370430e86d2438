------------------------------ MODULE SmallGen ------------------------------
(***************************************************************************)
(* Small scope: every set of points of a small lattice, whether it spans a *)
(* solid or not, and every station of the lattice of half the step around, *)
(* printed as JSON (coordinates in half steps).  Stations of such lattices *)
(* are in the planes of faces, in line with edges, on both, or on none,    *)
(* without any rounding.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Gen == TLCEval(JsonDeserialize(IOEnv.GEN))   \* side, min, max, stations
Lattice == {<<2 * x, 2 * y, 2 * z>> : x, y, z \in 0..(Gen.side - 1)}
Sets == UNION {kSubset(k, Lattice) : k \in Gen.min..Gen.max}
Minus(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Det(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1])
                + u[3] * (v[1] * w[2] - v[2] * w[1])
Spans(S) == LET a == CHOOSE p \in S : TRUE
            IN \E b, c, d \in S : Det(Minus(b, a), Minus(c, a), Minus(d, a)) # 0
Around == {<<x, y, z>> : x, y, z \in (-1)..(2 * Gen.side - 1)}

VARIABLES todo, done
vars == <<todo, done>>
Init == /\ done = FALSE
        /\ todo \in IF Gen.stations
                    THEN {[pts |-> S, obs |-> s] : S \in {S \in Sets : Spans(S)}, s \in Around}
                    ELSE {[pts |-> S, obs |-> <<>>] : S \in Sets}
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED todo
        /\ todo.obs \notin todo.pts =>
              PrintT("SCN " \o ToJson([pts |-> SetToSeq(todo.pts), spans |-> Gen.stations \/ Spans(todo.pts),
                                       obs |-> todo.obs]))
Spec == Init /\ [][Emit]_vars
=============================================================================
