---------------------------- MODULE StationsTrace ----------------------------
(***************************************************************************)
(* Trace specification for histories of calls: each line of the trace is   *)
(* one call on the implementation and the state of all stations after it.  *)
(* The state is that of Stations.tla: what each station has received; a    *)
(* contribution is worth the Newtonian field of its body at its station.   *)
(***************************************************************************)
EXTENDS Newton, Json, IOUtils

Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES
    l,       \* position in the trace
    fld,     \* fld[b][s]: field of body b at station s, and its tolerances
    acc,     \* see Stations
    log,     \* log[s]: last recorded G and T of station s
    where,   \* where[s]: position of station s
    lost     \* lost[s]: a call succeeded on a vertex, G and T are not specified
vars == <<l, fld, acc, log, where, lost>>

S == INSTANCE Stations WITH Station <- Nat, Body <- Nat, Flags <- {}

HullEps(p) == RMul(RLit("1e-9"), RAdd(Size(p), RMul(RLit("1e-3"), PMax(p))))
Entry(b, o) ==
    LET f == TLCEval(Field(b.pts, b.tri, o))
        M == RMax(PMax(b.pts), VMaxAbs(o))
    IN TLCEval([g |-> f.g, t |-> f.t, tolg |-> TolG(f, M), tolt |-> TolT(f, M),
                vertex |-> OnVertex(f), off |-> Inside(f, M) \/ Outside(f, M)])

\* sum of what a station received: G, T, tolerances, whether T is specified
Worth(s, cs, fl) ==
    Fold(LAMBDA a, c :
            LET e == fl[c.body][s]
                k == RMul(c.flags.rho, c.flags.gc)
                kg == RMul(k, MGal)
                kt == RMul(k, Eotvos)
            IN TLCEval([g |-> VAdd(a.g, VScale(kg, e.g)),
                tolg |-> RAdd(a.tolg, RMul(RAbs(kg), e.tolg)),
                t |-> IF c.flags.grad THEN MAdd(a.t, MScale(kt, e.t)) ELSE a.t,
                tolt |-> IF c.flags.grad THEN RAdd(a.tolt, RMul(RAbs(kt), e.tolt))
                         ELSE a.tolt,
                off |-> a.off /\ (c.flags.grad => e.off),
                grad |-> a.grad \/ c.flags.grad]),
         [g |-> VZero, t |-> MZero, tolg |-> 0, tolt |-> 0, off |-> TRUE, grad |-> FALSE],
         cs)

SameV(a, b) == \A i \in 1..3 : REq(a[i], b[i])
SameM(a, b) == \A i \in 1..3 : SameV(a[i], b[i])
Unchanged(a, b) == a = b \/ (SameV(a.G, b.G) /\ SameM(a.T, b.T))

\* recorded values v against what w says
Matches(v, w, pre) ==
    (IF VFinite(v.G) /\ VNear(v.G, w.g, w.tolg) THEN {} ELSE {pre \o "G"})
    \cup (IF ~w.off \/ MNear(v.T, w.t, w.tolt) THEN {} ELSE {pre \o "T"})
    \cup (IF w.grad \/ SameM(v.T, MZero) THEN {} ELSE {"nograd-T"})

Flags(r) == [rho |-> r.rho, gc |-> r.gc, grad |-> r.grad]
OnAVertex(r) == \E i \in DOMAIN r.bs : fld[r.bs[i]][r.st].vertex
Common(r) == IF r.changed = <<>> THEN {} ELSE {"input-changed"}
Others(r, s) == IF \A i \in DOMAIN log : i = s \/ Unchanged(r.after[i], log[i])
                THEN {} ELSE {"other-station"}
\* a call that fails without a reason
Raised(r) == IF ~r.ok /\ ~r.fault /\ ~OnAVertex(r) THEN {"raised"} ELSE {}

Begin(r) ==
    /\ fld' = [b \in DOMAIN r.bodies |-> [s \in DOMAIN r.obs |-> Entry(r.bodies[b], r.obs[s])]]
    /\ acc' = [s \in DOMAIN r.obs |-> <<>>]
    /\ log' = r.after
    /\ where' = r.obs
    /\ lost' = [s \in DOMAIN r.obs |-> FALSE]
BeginVerdict(r) ==
    (IF \A b \in DOMAIN r.bodies :
          IsHull(r.bodies[b].pts, r.bodies[b].tri, HullEps(r.bodies[b].pts))
     THEN {} ELSE {"oracle-hull"})
    \cup (IF r.ok THEN {} ELSE {"raised"})
    \cup (IF ~r.ok \/ \A s \in DOMAIN r.after : SameV(r.after[s].G, VZero)
                                        /\ SameM(r.after[s].T, MZero)
          THEN {} ELSE {"sum-G"})

Compute(r) ==
    /\ IF r.ok THEN S!Compute(r.st, r.bs, Flags(r)) ELSE S!Fail(r.st, r.bs, Flags(r))
    /\ lost' = [lost EXCEPT ![r.st] = @ \/ (r.ok /\ (r.fault \/ OnAVertex(r)))]
    /\ log' = r.after
    /\ UNCHANGED <<fld, where>>
ComputeVerdict(r) ==
    Raised(r) \cup Common(r) \cup Others(r, r.st)
    \cup (IF r.ok
          THEN IF lost'[r.st] THEN {}
               ELSE Matches(r.after[r.st], Worth(r.st, acc'[r.st], fld), "sum-")
                    \* no gradient requested: T keeps its value exactly
                    \cup (IF r.grad \/ SameM(r.after[r.st].T, log[r.st].T) THEN {}
                          ELSE {"nograd-T"})
          ELSE IF Unchanged(r.after[r.st], log[r.st]) THEN {} ELSE {"failed-changed"})

Query(r) == /\ log' = r.after
            /\ UNCHANGED <<fld, acc, lost, where>>
\* Polyhedron.get_gravity
FieldVerdict(r) ==
    Raised(r) \cup Common(r) \cup Others(r, 0)
    \cup IF ~r.ok \/ r.fault \/ OnAVertex(r) THEN {}
         ELSE Matches(r, Worth(r.st, S!Received(r.st, r.bs, Flags(r)), fld), "field-")
\* two ways of computing the same
BothVerdict(r, clause) ==
    Raised(r) \cup Common(r) \cup Others(r, 0)
    \cup IF ~r.ok \/ OnAVertex(r) THEN {}
         ELSE LET w == Worth(r.st, S!Received(r.st, r.bs, Flags(r)), fld)
                  u == Worth(r.st, S!Received(r.st, r.cs, Flags(r)), fld)
              IN Matches(r.A, w, "sum-") \cup
                 (IF VNear(r.A.G, r.B.G, RAdd(w.tolg, u.tolg)) THEN {} ELSE {clause})
                 \cup (IF r.op = "flag" \/ ~w.off \/ ~u.off
                          \/ MNear(r.A.T, r.B.T, RAdd(w.tolt, u.tolt))
                       THEN {} ELSE {clause})
                 \cup (IF r.op = "flag" /\ ~SameM(r.B.T, MZero) THEN {"nograd-T"} ELSE {})

\* another body takes the place of a former one
Rebuild(r) == /\ fld' = IF r.ok THEN Append(fld, [s \in DOMAIN where |-> Entry(r, where[s])]) ELSE fld
              /\ log' = r.after
              /\ UNCHANGED <<acc, lost, where>>
RebuildVerdict(r) ==
    (IF r.ok THEN {} ELSE {"raised"}) \cup Common(r) \cup Others(r, 0)
    \cup (IF ~r.ok \/ IsHull(r.pts, r.tri, HullEps(r.pts)) THEN {} ELSE {"oracle-hull"})
\* a new station at the same place starts from nothing
Restation(r) == /\ acc' = [acc EXCEPT ![r.st] = <<>>]
                /\ lost' = [lost EXCEPT ![r.st] = FALSE]
                /\ log' = r.after
                /\ UNCHANGED <<fld, where>>
RestationVerdict(r) ==
    (IF r.ok THEN {} ELSE {"raised"}) \cup Common(r) \cup Others(r, r.st)
    \cup (IF SameV(r.after[r.st].G, VZero) /\ SameM(r.after[r.st].T, MZero) THEN {} ELSE {"sum-G"})

Say(r, v) == v # {} => PrintT("FAIL " \o ToJson(<<r.id, v>>))
Act(r) ==
    CASE r.op = "begin"   -> Begin(r) /\ Say(r, BeginVerdict(r))
      [] r.op = "compute" -> Compute(r) /\ Say(r, ComputeVerdict(r))
      [] r.op = "field"   -> Query(r) /\ Say(r, FieldVerdict(r))
      [] r.op = "order"   -> Query(r) /\ Say(r, BothVerdict(r, "order"))
      [] r.op = "cut"     -> Query(r) /\ Say(r, BothVerdict(r, "cut"))
      [] r.op = "flag"    -> Query(r) /\ Say(r, BothVerdict(r, "flag-G"))
      [] r.op = "rebuild" -> Rebuild(r) /\ Say(r, RebuildVerdict(r))
      [] r.op = "restation" -> Restation(r) /\ Say(r, RestationVerdict(r))
      [] r.op = "mutate"  -> Query(r) /\ Say(r, Common(r) \cup Others(r, 0))

Init == l = 1 /\ fld = <<>> /\ acc = <<>> /\ log = <<>> /\ where = <<>> /\ lost = <<>>
Step == l <= Len(Lines) /\ Act(Lines[l]) /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
        /\ UNCHANGED <<fld, acc, log, where, lost>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
