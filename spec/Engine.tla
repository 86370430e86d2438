------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* How the engine computes, at the grain of geec/polyhedron.py: a body is  *)
(* a list of faces; each face takes its intermediate values (solid angle), *)
(* then sums the line integrals of its edges.  An edge's integral is       *)
(* computed once and shared, negated, with the twin edge of the            *)
(* neighbouring face; both are remembered until the body is reset.  A      *)
(* failure (bad argument, station on a vertex, interruption) may occur     *)
(* between any two steps, and leaves everything as it is at that moment.   *)
(*                                                                         *)
(* Values are symbolic: an edge integral is the station it was computed    *)
(* for, whether it has derivatives, and its sign; so that mixing stations, *)
(* counting an edge twice, or losing the sign of a twin shows.             *)
(*                                                                         *)
(* The body here is a tetrahedron: faces 1..4, edge <<f, g>> is the side   *)
(* of face f shared with face g, its twin is <<g, f>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Station, Body, Flags, Nil,
          MaxCalls,
          ResetAtStart,   \* get_gravity resets first (TRUE: the repaired code)
          ResetAtEnd,     \* get_gravity resets last
          ResetEdges,     \* resetting a face resets its edges
          SumApart,       \* compute_gravity adds to the station at the end only
          NegateTwin      \* the twin gets the opposite value

Face == 1..4
Edge == {e \in Face \X Face : e[1] # e[2]}
EdgesOf(f) == SelectSeq(<<<<f, 1>>, <<f, 2>>, <<f, 3>>, <<f, 4>>>>, LAMBDA e : e[2] # f)

VARIABLES
    edge,    \* edge[b][e]: Nil or the value remembered
    face,    \* face[b][f]: Nil or the sequence of edge values summed so far
    call,    \* the call being executed, or Nil
    acc,     \* acc[s]: contributions added to station s
    ncalls
vars == <<edge, face, call, acc, ncalls>>

\* what an edge of the body, seen from s, must be worth for face e[1]
Value(b, e, s, g) == [body |-> b, at |-> s, flags |-> g,
                      edge |-> IF e[1] < e[2] THEN e ELSE <<e[2], e[1]>>,
                      sign |-> IF e[1] < e[2] THEN 1 ELSE -1]
Opp(v) == [v EXCEPT !.sign = IF NegateTwin THEN -v.sign ELSE v.sign]

\* the right result of one body: each face with its own edges, once, from s
Right(b, s, g) == [f \in Face |-> [i \in 1..3 |-> Value(b, EdgesOf(f)[i], s, g)]]

Clean == [e \in Edge |-> Nil]
NoFace == [f \in Face |-> Nil]

Init == /\ edge = [b \in Body |-> Clean]
        /\ face = [b \in Body |-> NoFace]
        /\ call = Nil
        /\ acc = [s \in Station |-> <<>>]
        /\ ncalls = 0

\* Station.compute_gravity(bs), or Polyhedron.get_gravity (a list of one)
Call(s, bs, g) ==
    /\ call = Nil
    /\ ncalls < MaxCalls
    /\ ncalls' = ncalls + 1
    /\ call' = [s |-> s, bs |-> bs, g |-> g, k |-> 1, f |-> 0, j |-> 1,
                res |-> <<>>, sum |-> <<>>]
    /\ UNCHANGED <<edge, face, acc>>

InBody == call # Nil /\ call.k <= Len(call.bs)
B == call.bs[call.k]

\* get_gravity starts on body B
Begin ==
    /\ InBody /\ call.f = 0
    /\ IF ResetAtStart
       THEN /\ edge' = [edge EXCEPT ![B] = Clean]
            /\ face' = [face EXCEPT ![B] = NoFace]
       ELSE UNCHANGED <<edge, face>>
    /\ call' = [call EXCEPT !.f = 1, !.j = 1, !.res = <<>>]
    /\ UNCHANGED <<acc, ncalls>>

\* one edge of face f: computed, and given to its twin, unless remembered
EdgeStep ==
    /\ InBody /\ call.f \in Face /\ call.j <= 3
    /\ LET f == call.f
           e == EdgesOf(f)[call.j]
           t == <<e[2], e[1]>>
           v == Value(B, e, call.s, call.g)
           cache == IF edge[B][e] = Nil
                    THEN [edge[B] EXCEPT ![e] = v, ![t] = Opp(v)]
                    ELSE edge[B]
       IN /\ edge' = [edge EXCEPT ![B] = cache]
          /\ face' = [face EXCEPT ![B][f] =
                        IF @ = Nil THEN <<cache[e]>> ELSE Append(@, cache[e])]
    /\ call' = [call EXCEPT !.j = @ + 1]
    /\ UNCHANGED <<acc, ncalls>>

FaceDone ==
    /\ InBody /\ call.f \in Face /\ call.j = 4
    /\ call' = [call EXCEPT !.res = Append(@, face[B][call.f]), !.f = @ + 1, !.j = 1]
    /\ UNCHANGED <<edge, face, acc, ncalls>>

\* get_gravity returns
BodyDone ==
    /\ InBody /\ call.f = 5
    /\ IF ResetAtEnd
       THEN /\ edge' = IF ResetEdges THEN [edge EXCEPT ![B] = Clean] ELSE edge
            /\ face' = [face EXCEPT ![B] = NoFace]
       ELSE UNCHANGED <<edge, face>>
    /\ IF SumApart
       THEN /\ call' = [call EXCEPT !.k = @ + 1, !.f = 0, !.sum = Append(@, call.res)]
            /\ UNCHANGED acc
       ELSE /\ call' = [call EXCEPT !.k = @ + 1, !.f = 0]
            /\ acc' = [acc EXCEPT ![call.s] = Append(@, <<B, call.g, call.res>>)]
    /\ UNCHANGED ncalls

Return ==
    /\ call # Nil /\ call.k = Len(call.bs) + 1
    /\ acc' = IF SumApart
              THEN [acc EXCEPT ![call.s] =
                       @ \o [i \in DOMAIN call.sum |-> <<call.bs[i], call.g, call.sum[i]>>]]
              ELSE acc
    /\ call' = Nil
    /\ UNCHANGED <<edge, face, ncalls>>

\* the call fails, here and now
Fault ==
    /\ InBody
    /\ call' = Nil
    /\ UNCHANGED <<edge, face, acc, ncalls>>

Lists == {<<b>> : b \in Body} \cup (Body \X Body)
Next == \/ \E s \in Station, bs \in Lists, g \in Flags : Call(s, bs, g)
        \/ Begin \/ EdgeStep \/ FaceDone \/ BodyDone \/ Return \/ Fault
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every result added to a station is the right one for that station
ResultsRight ==
    \A s \in Station : \A i \in DOMAIN acc[s] :
        LET c == acc[s][i] IN c[3] = Right(c[1], s, c[2])

\* a failed call adds nothing: refinement of Stations
Abs == INSTANCE Stations WITH
    acc <- [s \in Station |->
              [i \in DOMAIN acc[s] |->
                 [body |-> acc[s][i][1],
                  at |-> IF acc[s][i][3] = Right(acc[s][i][1], s, acc[s][i][2])
                         THEN s ELSE Nil,
                  flags |-> acc[s][i][2]]]]
Refines == Abs!Init /\ [][\/ call # Nil /\ Abs!Compute(call.s, call.bs, call.g)
                          \/ UNCHANGED acc]_vars
\* between calls nothing is remembered, unless the last one failed
=============================================================================
