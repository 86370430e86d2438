------------------------------ MODULE InputsGen ------------------------------
(* Arguments of every kind, printed as JSON for the replay (exhaustive). *)
EXTENDS Integers, Sequences, Json, TLC

Points == {"solid", "solid32", "solidint", "list", "tuple", "none", "word", "flatten", "stack", "two",
           "four", "transposed", "empty", "few1", "few2", "few3", "plane", "planeint", "slanted", "line", "same",
           "twins", "nan", "inf", "allnan", "words", "dict", "number"}
Coord == {"good", "goodint", "list", "tuple", "none", "two", "four", "one", "zero", "column", "row",
          "square", "empty", "nan", "inf", "words", "number"}
Item == {"good", "none", "number", "points", "class", "face", "station", "word", "nested"}
Number == {"good", "int", "zero", "negative", "none", "word", "dict", "numpy"}
Where == {"alone", "first", "middle", "last", "nothing"}
Box == {"tuple", "iterator", "array", "map"}   \* bodies, but not in a list
Ells == {"wgs84", "airy", "bessel", "axes", "none"}

VARIABLES todo, done
vars == <<todo, done>>
Cases == {[op |-> "body", a |-> p] : p \in Points}
         \cup {[op |-> "station", a |-> p, via |-> "station"] : p \in Coord}
         \cup {[op |-> "station", a |-> p, via |-> "body"] : p \in {"good", "goodint", "nan", "inf"}}
         \cup {[op |-> "call", a |-> i, where |-> w, rho |-> r, gc |-> "good"] : i \in Item, w \in Where, r \in Number}
         \cup {[op |-> "call", a |-> i, where |-> w, rho |-> "good", gc |-> g] : i \in Item, w \in Where, g \in Number}
         \cup {[op |-> "call", a |-> i, where |-> w, rho |-> r, gc |-> g] :
                  i \in {"good", "word"}, w \in Box, r \in {"good", "int"}, g \in {"good", "int"}}
         \cup {[op |-> "label", e |-> e, f |-> f] : e \in Ells, f \in Ells \ {"none"}}
Init == todo \in Cases /\ done = FALSE
Emit == ~done /\ PrintT("SCN " \o ToJson(todo)) /\ done' = TRUE /\ UNCHANGED todo
Spec == Init /\ [][Emit]_vars
=============================================================================
