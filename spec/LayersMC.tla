------------------------------ MODULE LayersMC ------------------------------
(***************************************************************************)
(* Layers, for two or three parameters; and the oracle of the trace        *)
(* specification against it: files of the model as configuration trees     *)
(* (parameter 3 in a mass body's list, the others in a section), looked up *)
(* by Config!Get.                                                          *)
(***************************************************************************)
EXTENDS Layers, TLC
C == INSTANCE Config
SectionOf == [p \in Param |-> IF p = 3 THEN 2 ELSE 1]

Key(p) == "p" \o ToString(p)
Leaf(v) == [t |-> "num", v |-> v]
Keys(f, ps) == [t |-> "map", m |-> IF ps = <<>> THEN <<>>
                                   ELSE SelectSeq([k \in DOMAIN ps |-> <<Key(ps[k]), Leaf(f[ps[k]])>>],
                                                  LAMBDA e : e[2].v # 0)]
Others == SelectSeq(<<1, 2>>, LAMBDA p : p \in Param)
\* one mass body, if the file says anything about it
Tree(f) == [t |-> "map",
            m |-> (IF 3 \notin Param THEN <<>> ELSE IF f[3] = 0 THEN <<>>
                   ELSE << <<"masses", [t |-> "list", l |-> <<Keys(f, <<3>>)>>]>> >>)
                  \o (IF \A k \in DOMAIN Others : f[Others[k]] = 0 THEN <<>>
                      ELSE << <<"observers", Keys(f, Others)>> >>)]
Trees == <<Tree(arg), Tree(user), Tree(default)>>
Found(p) == IF p = 3 THEN C!Get(C!MassNodes(Trees, 1), Key(p)) ELSE C!Get(C!ObsNodes(Trees), Key(p))
OracleAgrees == pc = "done" => \A p \in Param : Found(p) = Leaf(got[p])
=============================================================================
