------------------------------ MODULE Stations ------------------------------
(***************************************************************************)
(* The gravity engine as its callers see it: stations accumulate fields.   *)
(* A call computes, at one station, the fields of a list of bodies, and    *)
(* adds them all; or it fails, and adds nothing.  What a body contributes  *)
(* depends on the body, the station and the arguments of the call only: so *)
(* a station's value is the bag of contributions it received.              *)
(*                                                                         *)
(* Engine.tla refines this with the caches of faces and edges;             *)
(* StationsTrace.tla gives contributions their numerical value (Newton)    *)
(* and checks recorded calls of the implementation against these actions.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Station, Body, Flags   \* Flags: the arguments of a call, other than those
VARIABLE acc                     \* acc[s]: what station s has received, in order

Contribution == [body : Body, at : Station, flags : Flags]

Init == acc = [s \in Station |-> <<>>]

Received(s, bs, g) == [i \in DOMAIN bs |-> [body |-> bs[i], at |-> s, flags |-> g]]
Compute(s, bs, g) == acc' = [acc EXCEPT ![s] = @ \o Received(s, bs, g)]
Fail(s, bs, g) == UNCHANGED acc

Next == \E s \in Station, bs \in UNION {[1..n -> Body] : n \in 0..2}, g \in Flags :
            Compute(s, bs, g) \/ Fail(s, bs, g)
Spec == Init /\ [][Next]_acc

\* a station only ever holds contributions computed for itself
OwnOnly == \A s \in Station : \A i \in DOMAIN acc[s] : acc[s][i].at = s
Bounded == \A s \in Station : Len(acc[s]) <= 4
=============================================================================
