------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* Loading configurations, as in geec/config.py: the packaged default is   *)
(* read first, the user's file on top of it, the file given as argument on *)
(* top of both; a parameter is then looked up from the top of the stack.   *)
(* Files change between loads.  A file gives, for each parameter, a value  *)
(* or nothing (0); parameters belong to sections.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Param,       \* parameters
          Section,     \* Section[p]: the section of parameter p
          Values,      \* 1..n
          MaxSteps,
          \* design variants: TRUE is right
          FreshStack,  \* each load starts from an empty stack
          ArgOnTop,    \* the argument has priority over the user's file
          PerParam     \* a file overrides parameter by parameter, not by section

File == [Param -> {0} \cup Values]
Empty == [p \in Param |-> 0]

VARIABLES default, user, arg, stack, pc, got, n
vars == <<default, user, arg, stack, pc, got, n>>

Init == /\ default \in [Param -> Values]
        /\ user = Empty /\ arg = Empty /\ stack = <<>> /\ pc = "idle"
        /\ got = Empty /\ n = 0

EditUser == pc = "idle" /\ user' \in File /\ UNCHANGED <<default, arg, stack, pc, got>>
Begin == /\ pc = "idle"
         /\ arg' \in File
         /\ stack' = IF FreshStack \/ stack = <<>> THEN <<default>> ELSE stack
         /\ pc' = "user" /\ UNCHANGED <<default, user, got>>
ReadUser == /\ pc = "user" /\ stack' = <<user>> \o stack /\ pc' = "arg"
            /\ UNCHANGED <<default, user, arg, got>>
ReadArg == /\ pc = "arg"
           /\ stack' = IF ArgOnTop THEN <<arg>> \o stack
                       ELSE <<stack[1], arg>> \o Tail(stack)
           /\ pc' = "look" /\ UNCHANGED <<default, user, arg, got>>
Defines(f, p) == IF PerParam THEN f[p] # 0
                 ELSE \E q \in Param : Section[q] = Section[p] /\ f[q] # 0
Look(s, p) == LET k == {i \in DOMAIN s : Defines(s[i], p)}
              IN s[CHOOSE i \in k : \A j \in k : i <= j][p]
LookUp == /\ pc = "look"
          /\ got' = [p \in Param |-> Look(stack, p)]
          /\ pc' = "done" /\ UNCHANGED <<default, user, arg, stack>>
End == /\ pc = "done" /\ pc' = "idle" /\ arg' = Empty /\ got' = Empty
       /\ UNCHANGED <<default, user, stack>>
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ EditUser \/ Begin \/ ReadUser \/ ReadArg \/ LookUp \/ End
Spec == Init /\ [][Next]_vars

\* C11
Highest(p) == IF arg[p] # 0 THEN arg[p] ELSE IF user[p] # 0 THEN user[p] ELSE default[p]
Right == pc = "done" => \A p \in Param : got[p] = Highest(p)
=============================================================================
