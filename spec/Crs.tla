--------------------------------- MODULE Crs ---------------------------------
(***************************************************************************)
(* Datasets and their reference systems, as in geec/dataset.py and         *)
(* geec/crs.py: each conversion changes coordinates and label together.    *)
(* The coordinates are abstracted to the reference system they really are  *)
(* expressed in (ghost variable real), the heights to the list of geoids   *)
(* added to them (ghost variable added).                                   *)
(*                                                                         *)
(* The operators After... are the transitions of labels; CrsTrace.tla      *)
(* reuses them to judge recorded conversions.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ell,          \* ellipsoids, among them WGS84
          WGS84,
          Origin,       \* ENU origins
          Geoid,        \* vertical datums other than the ellipsoid
          NDs,          \* number of datasets
          MaxOps,
          \* design variants: TRUE is right
          EnuViaWGS84,  \* to ENU through WGS84, from another ellipsoid
          UseOwnOrigin, \* ENU coordinates are read with the dataset's own origin
          ClearDatum,   \* heights are labelled ellipsoidal once the geoid is added
          GeoOnly,      \* only geographic coordinates get geoid heights and wrapping
          OwnLabel      \* each dataset has its own label

None == "none"
Ellps == "ellps"
VDatum == Geoid \cup {Ellps}

\* labels
Geo(e, v) == [sys |-> "ellps", ell |-> e, org |-> None, vd |-> v]
Enu(e, o, v) == [sys |-> "enu", ell |-> e, org |-> o, vd |-> v]
EcefL(v) == [sys |-> "ecef", ell |-> None, org |-> None, vd |-> v]
Cart == [sys |-> "cart", ell |-> None, org |-> None, vd |-> Ellps]

AfterEcef(c) == IF c.sys = "cart" THEN c ELSE EcefL(c.vd)
AfterWGS84(c) == IF c.sys = "cart" THEN c ELSE Geo(WGS84, c.vd)
AfterEnu(c, o) == IF c.sys \in {"cart", "enu"} THEN c ELSE Enu(WGS84, o, c.vd)
AfterHeight(c) == IF c.sys = "ellps" THEN [c EXCEPT !.vd = Ellps] ELSE c
AfterWrap(c) == c

Frame(c) == [sys |-> c.sys, ell |-> c.ell, org |-> c.org]
Bad == [sys |-> "bad", ell |-> None, org |-> None]

VARIABLES label, real, added, init, nops
vars == <<label, real, added, init, nops>>
DS == 1..NDs

Inits == {Geo(e, v) : e \in Ell, v \in VDatum}
         \cup {Enu(e, o, v) : e \in Ell, o \in Origin, v \in VDatum}
         \cup {EcefL(Ellps), Cart}
Init == /\ init \in [DS -> Inits]
        /\ label = init
        /\ real = [d \in DS |-> Frame(init[d])]
        /\ added = [d \in DS |-> <<>>]
        /\ nops = 0

\* what a computation that reads coordinates as 'from' and writes them as 'to' does
Convert(d, from, to) == IF real[d] = from THEN to ELSE Bad
Relabel(d, c) == IF OwnLabel THEN [label EXCEPT ![d] = c]
                 ELSE [i \in DS |-> IF label[i] = label[d] THEN c ELSE label[i]]

ToEcef(d) ==
    /\ label' = Relabel(d, AfterEcef(label[d]))
    /\ real' = [real EXCEPT ![d] =
          CASE label[d].sys = "cart" -> @
            [] label[d].sys = "enu" /\ ~UseOwnOrigin ->
                  LET o == CHOOSE x \in Origin : TRUE
                  IN Convert(d, [Frame(label[d]) EXCEPT !.org = o], Frame(EcefL(Ellps)))
            [] OTHER -> Convert(d, Frame(label[d]), Frame(EcefL(Ellps)))]
    /\ UNCHANGED added
ToWGS84(d) ==
    /\ label' = Relabel(d, AfterWGS84(label[d]))
    /\ real' = [real EXCEPT ![d] =
          IF label[d].sys = "cart" THEN @
          ELSE Convert(d, Frame(label[d]), Frame(Geo(WGS84, Ellps)))]
    /\ UNCHANGED added
ToEnu(d, o) ==
    /\ label' = Relabel(d, AfterEnu(label[d], o))
    /\ real' = [real EXCEPT ![d] =
          IF label[d].sys \in {"cart", "enu"} THEN @
          ELSE IF label[d].sys = "ellps" /\ ~EnuViaWGS84
          THEN Convert(d, Frame(Geo(WGS84, Ellps)), Frame(Enu(WGS84, o, Ellps)))
          ELSE Convert(d, Frame(label[d]), Frame(Enu(WGS84, o, Ellps)))]
    /\ UNCHANGED added
ToHeight(d) ==
    LET c == label[d]
        geo == c.sys = "ellps" \/ ~GeoOnly
    IN /\ label' = Relabel(d, IF ClearDatum /\ geo THEN [c EXCEPT !.vd = Ellps] ELSE c)
       /\ added' = [added EXCEPT ![d] = IF geo /\ c.vd # Ellps THEN Append(@, <<c.vd, c.sys>>) ELSE @]
       /\ UNCHANGED real
ToLon180(d) == UNCHANGED <<label, real, added>>

Op == \E d \in DS : \/ ToEcef(d) \/ ToWGS84(d) \/ ToHeight(d) \/ ToLon180(d)
                    \/ \E o \in Origin : ToEnu(d, o)
Next == nops < MaxOps /\ nops' = nops + 1 /\ init' = init /\ Op
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the label tells the truth (C08)
LabelTrue == \A d \in DS : real[d] = Frame(label[d])
\* the vertical datum is neither lost nor invented, and applied at most once,
\* to geographic coordinates (C08, C09)
HeightOnce == \A d \in DS :
    \/ label[d].vd = init[d].vd /\ added[d] = <<>>
    \/ label[d].vd = Ellps /\ added[d] = <<<<init[d].vd, "ellps">>>>
\* Cartesian datasets stay (C08)
CartStays == \A d \in DS : init[d].sys = "cart" <=> label[d].sys = "cart"
\* after the preparation of a run every dataset is in the frame of computation
=============================================================================
