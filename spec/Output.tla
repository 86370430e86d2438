------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* A run of the program, step by step: load the configuration, read the    *)
(* masses, build the bodies, compute, then write the results, block after  *)
(* block; other files are there.  Any step may fail or be interrupted.     *)
(* fs maps a path to what is there: nothing, or a file of so many blocks   *)
(* of text.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Path,       \* possible paths of results
          Part,       \* Part[p]: where the results for p are written first
          NBlocks,    \* blocks of text that make the results
          MaxRuns,
          \* design variants: TRUE is right
          Aside,      \* results are written aside, then put in place at once
          Late,       \* nothing is written before everything is computed
          CleanUp,    \* what was written aside is removed after a failure
          Honest      \* results are announced once they are there

All == Path \cup {Part[p] : p \in Path}
Nothing == <<>>
File(r, n) == <<"file">> \o [i \in 1..n |-> <<r, i>>]
Results(r) == File(r, NBlocks)                   \* of run r, complete
Steps == <<"load", "read", "build", "compute", "write", "replace", "tell">>

VARIABLES fs,      \* what is where
          run,     \* number of the run
          target,  \* path of its results
          pc,      \* next step, or "idle"
          k,       \* blocks written
          before,  \* fs when the run began
          last,    \* how the last run ended
          told     \* the path announced, as a sequence of none or one
vars == <<fs, run, target, pc, k, before, last, told>>

Init == /\ fs \in [All -> {Nothing}] /\ run = 0 /\ target \in Path /\ pc = "idle" /\ k = 0
        /\ before = fs /\ last = "none" /\ told = <<>>

\* what the run does to the files, as a whole (see RunTrace)
Succeed(f, p, text) == [f EXCEPT ![p] = text]
Fail(f) == f

Where(p) == IF Aside THEN Part[p] ELSE p
Start == /\ pc = "idle" /\ run < MaxRuns /\ run' = run + 1
         /\ target' \in Path /\ before' = fs /\ pc' = "load" /\ k' = 0
         /\ fs' = IF Late THEN fs ELSE [fs EXCEPT ![Where(target')] = File(run, 0)]
         /\ last' = "running" /\ told' = <<>>
Work == /\ pc \in {"load", "read", "build", "compute"}
        /\ pc' = Steps[(CHOOSE i \in DOMAIN Steps : Steps[i] = pc) + 1]
        /\ fs' = IF pc = "compute" THEN [fs EXCEPT ![Where(target)] = File(run, 0)] ELSE fs
        /\ told' = IF pc = "compute" /\ ~Honest THEN <<target>> ELSE told
        /\ UNCHANGED <<run, target, k, before, last>>
Write == /\ pc = "write" /\ k < NBlocks
         /\ k' = k + 1
         /\ fs' = [fs EXCEPT ![Where(target)] = File(run, k + 1)]
         /\ pc' = IF k + 1 < NBlocks THEN "write" ELSE "replace"
         /\ UNCHANGED <<run, target, before, last, told>>
Replace == /\ pc = "replace"
           /\ fs' = IF Aside THEN [fs EXCEPT ![target] = fs[Part[target]], ![Part[target]] = Nothing] ELSE fs
           /\ pc' = "tell"
           /\ UNCHANGED <<run, target, k, before, last, told>>
Tell == /\ pc = "tell"
        /\ told' = <<target>> /\ pc' = "idle" /\ last' = "done"
        /\ UNCHANGED <<fs, run, target, k, before>>
\* an error, an interruption, a full disk
Break == /\ pc # "idle"
         /\ fs' = IF CleanUp /\ Aside THEN [fs EXCEPT ![Part[target]] = Nothing] ELSE fs
         /\ pc' = "idle" /\ last' = IF pc = "tell" THEN "late" ELSE "failed"
         /\ UNCHANGED <<run, target, k, before, told>>
Next == Start \/ Work \/ Write \/ Replace \/ Tell \/ Break
Spec == Init /\ [][Next]_vars

\* C16
Whole == pc = "idle" =>
    CASE last = "done" -> fs = Succeed(before, target, Results(run))
      [] last = "failed" -> fs = Fail(before)
      \* interrupted when all was done but the announcement
      [] last = "late" -> fs = Succeed(before, target, Results(run))
      [] OTHER -> TRUE
\* at no time, not even if the program is killed, are former results damaged
Intact == \A p \in Path : fs[p] = before[p] \/ (p = target /\ fs[p] = Results(run))
\* what is announced is there; a run that fails announces nothing (C20)
Truthful == /\ \A i \in DOMAIN told : told[i] = target /\ fs[target] = Results(run)
            /\ (pc = "idle" /\ last = "done") => told = <<target>>
            /\ (pc = "idle" /\ last = "failed") => told = <<>>
=============================================================================
