------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What GEEC says (C20): its exit status, the path it announces, the       *)
(* parameters in its log, the answers to questions.  A record has          *)
(*   r.said.heard   whether everything the program said could be heard     *)
(*   r.said.target  a line it said names the target of the results         *)
(*   r.said.saved   the paths it said to have saved, TRUE for the target   *)
(*   r.said.answer  it gave the answer to the question                     *)
(*   r.said.logged  there is a log of parameters                           *)
(*   r.said.masses, r.said.obs  parameters in it: pairs <<key, node>>      *)
(***************************************************************************)
EXTENDS Config

RECURSIVE SameNode(_, _)
SameNode(x, y) ==
    /\ x.t = y.t
    /\ CASE x.t = "list" -> /\ Len(x.l) = Len(y.l)
                            /\ \A i \in DOMAIN x.l : SameNode(x.l[i], y.l[i])
         [] x.t \in {"num", "str", "bool"} -> x.v = y.v
         [] OTHER -> TRUE

Top == {"density", "gravity_constant", "points", "file_path"}
InCrs == {"ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin",
          "altitude_origin", "vdatum"}
InGrid == {"xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"}
Effective(ns, k) == CASE k \in InCrs -> Get(Under(ns, "crs"), k)
                      [] k \in InGrid -> Get(Under(ns, "grid"), k)
                      [] OTHER -> Get(ns, k)
Said(b, k) == \E i \in DOMAIN b : b[i][1] = k
Value(b, k) == b[CHOOSE i \in DOMAIN b : b[i][1] = k][2]
\* the block b of the log gives the parameters of the section ns
BlockRight(b, ns, keys) ==
    \A k \in keys : LET n == Effective(ns, k)
                    IN n.t \in {"miss", "bad", "map"} \/ (Said(b, k) /\ SameNode(Value(b, k), n))
LogRight(r) ==
    /\ r.said.logged
    /\ Len(r.said.masses) = NMasses(r.layers)
    /\ \A i \in DOMAIN r.said.masses : BlockRight(r.said.masses[i], MassNodes(r.layers, i), Top \cup InCrs)
    /\ BlockRight(r.said.obs, ObsNodes(r.layers),
                  ({"points", "file_path"} \cup InCrs \cup InGrid) \ {"vdatum"})

\* what was announced, given how the program ended and whether the results are there
Announced(r, done) ==
    IF ~r.said.heard THEN {}
    ELSE IF r.exit = 0
    THEN (IF r.said.target THEN {} ELSE {"not-announced"})
         \cup (IF \A i \in DOMAIN r.said.saved : r.said.saved[i] THEN {} ELSE {"announced-other"})
    ELSE IF r.said.saved = <<>> \/ done THEN {} ELSE {"announced"}

\* a question: answered, or refused; nothing is done besides
AskVerdict(r, untouched) ==
    (IF untouched THEN {} ELSE {"asked-changed"})
    \cup (CASE r.must = "answer" -> IF r.exit = 0 /\ r.said.answer THEN {} ELSE {"not-answered"}
            [] r.must = "refuse" -> IF r.exit # 0 THEN {} ELSE {"accepted"})
=============================================================================
