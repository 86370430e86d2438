------------------------------- MODULE RunGen -------------------------------
(***************************************************************************)
(* Sessions of runs of the program for the replay, printed as JSON (used   *)
(* with -simulate): what each mass body and the observers are given as,    *)
(* where the parameters are, where the results go, what goes wrong.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Gen == TLCEval(JsonDeserialize(IOEnv.GEN))
VARIABLES hist, done
vars == <<hist, done>>
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Among(s) == s[Pick(DOMAIN s)]

Ells == <<"wgs84", "@null", "airy", "clarke1866", "bessel", "@axes", "international1924">>
Mass(scene) ==
    [ref |-> IF scene = "cart" THEN "cart" ELSE Among(<<"ellps", "ellps", "enu", "enu", "ecef", "cart", "@null">>),
     ell |-> Among(Ells), vd |-> Among(<<"ellps", "@null", "egm84", "egm96", "egm2008", "EGM96", "egm08">>),
     src |-> Among(<<"points", "points", "file", "both">>),
     rho |-> Among(<<"std", "neg", "tiny", "any", "any", "zero">>), gc |-> Among(<<"std", "std", "any", "one">>),
     wrap |-> Among(<<0, 0, 0, 360, -360>>),
     \* as the body before: all the same, its shape and place, its numbers in another system
     dup |-> Among(<<"", "", "", "", "all", "body", "numbers", "numbers">>)]
Obs(scene) ==
    [ref |-> IF scene = "cart" THEN "cart"
             ELSE Among(<<"ellps", "ellps", "enu", "enu", "ecef", "cart", "@null", "ELLPS">>),
     ell |-> Among(Ells), src |-> Among(<<"points", "points", "file", "grid", "both">>),
     n |-> IF Pick(1..100) = 1 THEN Among(<<150, 300>>)
           ELSE Among(<<1, 2, 3, 5, 8, 1, 2, 3, 5, 8, 1, 2, 3, 5, 8, 40>>),
     wrap |-> Among(<<0, 0, 0, 360>>)]
Out == [base |-> Among(<<"cwd", "cwd", "abs", "home">>),
        dirs |-> Among(<<"", "", "", "a", "a/b", "new">>),
        stem |-> Among(<<"r", "r", "r", "s", "my results">>),
        suf |-> Among(<<"", "", ".csv", ".txt", ".CSV", ".dat", ".yaml", ".yml", ".YAML", ".gz", ".zip", ".part">>)]
Run(scene) ==
       [op |-> "run", scene |-> scene, masses |-> [i \in 1..Among(<<1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 12>>) |-> TLCEval(Mass(scene))],
        obs |-> Obs(scene), grad |-> Among(<<TRUE, TRUE, FALSE>>),
        layer |-> Among(<<"arg", "arg", "user", "split", "split">>), out |-> Out,
        fault |-> Among(Gen.faults), at |-> Pick(1..400), shell |-> Pick(1..25) = 1]
\* the same request once more: from other layers, in another order of the keys, ...
Again == [op |-> "again", vary |-> Among(<<"same", "arg", "user", "split", "split", "keys", "grad">>), out |-> Out,
          fault |-> "none", at |-> 1, shell |-> Pick(1..8) = 1]
Write == [op |-> "write", rows |-> Among(<<0, 1, 4, 40, 0, 1, 4, 40, 0, 1, 4, 40, 0, 1, 4, 2500>>), cols |-> Pick(1..12), out |-> Out,
          fault |-> Among(Gen.wfaults), at |-> Pick(1..400)]
Template == [op |-> "config", out |-> Among(<<Out, Out, [Out EXCEPT !.stem = ""]>>),
             fault |-> Among(Gen.tfaults), at |-> Pick(1..400), shell |-> Pick(1..25) = 1]
\* a question to the program, or a command it does not know
Ask == [op |-> "ask", what |-> Pick(1..24), out |-> Out, fault |-> "none", at |-> 1, shell |-> Pick(1..25) = 1]
Init == hist = <<>> /\ done = FALSE
Next == /\ ~done
        /\ IF Len(hist) < Gen.depth
           THEN /\ \E o \in {Among(Gen.ops)}, scene \in {Among(<<"cart", "earth", "earth">>)} :
                      hist' = Append(hist, TLCEval(CASE o = "run" -> Run(scene)
                                                     [] o = "again" -> IF hist = <<>> THEN Run(scene) ELSE Again
                                                     [] o = "write" -> Write
                                                     [] o = "ask" -> Ask
                                                     [] OTHER -> Template))
                /\ UNCHANGED done
           ELSE PrintT("SCN " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
=============================================================================
