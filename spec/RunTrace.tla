------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Trace specification for the program as a whole: each line is one run    *)
(* ("run"), one table written ("write") or one template asked for          *)
(* ("config"), with the configuration files at that time (see Config) and  *)
(* all files where results may go, before and after.                       *)
(*                                                                         *)
(* What a run must report (C13) follows from the other modules: Config     *)
(* gives the points and reference systems, Geodesy where they are, Newton  *)
(* the field of each body there.  What it must do to files (C16) is        *)
(* Succeed or Fail of Output.  What it says (C20) is judged by Report.     *)
(***************************************************************************)
EXTENDS Newton, Geodesy, Report, Json, IOUtils

Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

WGS84C == [sys |-> "ellps", a |-> RLit("6378137"), b |-> RLit("6356752.31424518")]
PosTol(p) == RAdd(RLit("1e-6"), RMul(RLit("4e-16"), VMaxAbs(p)))

-----------------------------------------------------------------------------
(* mass bodies *)
\* heights above the ellipsoid: what the vertical datum adds
UndOk(c, rows, b) ==
    IF c.sys # "ellps" \/ c.vd = "ellps" THEN b.und = <<>>
    ELSE /\ Len(b.und) = Len(rows)
         /\ \A i \in DOMAIN rows :
               IF b.cell[i] = <<>>
               THEN c.vd \in DOMAIN Synth /\ Near(b.und[i], Undulation(c.vd, rows[i]), UndulationTol(c.vd, rows[i]))
               ELSE LET hi == Fold(LAMBDA m, x : RMax(m, x), b.cell[i][1], b.cell[i])
                        lo == Fold(LAMBDA m, x : RMin(m, x), b.cell[i][1], b.cell[i])
                    IN RLe(b.und[i], RAdd(hi, RLit("0.5"))) /\ RLe(RSub(lo, RLit("0.5")), b.und[i])
MassPts(c, rows, b) ==
    [i \in DOMAIN rows |->
        Position(IF b.und = <<>> THEN rows[i]
                 ELSE <<rows[i][1], rows[i][2], RAdd(rows[i][3], b.und[i])>>, c)]
\* no body: too few points, or all in one plane
Flat(P) == \/ Len(P) < 4
           \/ \A i, j, k \in DOMAIN P : LET d == Triple(VSub(P[i], P[1]), VSub(P[j], P[1]), VSub(P[k], P[1]))
                                        IN REq(d, 0)
HullEps(p) == RMul(RLit("1e-9"), RAdd(Size(p), RMul(RLit("1e-3"), PMax(p))))

Body(r, i) ==
    LET ns == MassNodes(r.layers, i)
        c == CrsOf(Under(ns, "crs")).v
        rows == Source(ns, r.files).v.rows
        b == r.bodies[i]
        und == UndOk(c, rows, b)
        P == IF und THEN MassPts(c, rows, b) ELSE <<>>
    IN TLCEval([ok |-> und, P |-> P, tri |-> b.tri, flat |-> b.tri = <<>>,
                k |-> RMul(Density(ns).v, Constant(ns).v)])
BodyOk(b) == b.ok /\ (IF b.flat THEN Flat(b.P) ELSE IsHull(b.P, b.tri, HullEps(b.P)))

-----------------------------------------------------------------------------
(* observations *)
ObsCrs(r) == CrsOf(Under(ObsNodes(r.layers), "crs")).v
ObsSrc(r) == Source(ObsNodes(r.layers), r.files).v
\* the points as configured (the number of steps of a grid is beyond doubt here)
ObsRows(r) == LET s == ObsSrc(r) IN
              IF s.kind = "rows" THEN s.rows
              ELSE GridRows(s.axes, [i \in 1..3 |-> CHOOSE n \in Counts(s.axes[i]) : TRUE])
Names(c) == (IF c.sys = "cart" THEN <<"x_mes", "y_mes", "z_mes">> ELSE <<"lon_mes", "lat_mes", "alt_mes">>)
            \o <<"Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz">>
Units(c) == (IF c.sys = "cart" THEN <<"(m)", "(m)", "(m)">> ELSE <<"(degree_east)", "(degree_north)", "(m)">>)
            \o <<"(mGal)", "(mGal)", "(mGal)", "(E)", "(E)", "(E)", "(E)", "(E)", "(E)">>
Six(t) == <<t[1][1], t[1][2], t[1][3], t[2][2], t[2][3], t[3][3]>>

\* the field of all bodies at s, and what rounding may do to it
Total(bodies, s) ==
    Fold(LAMBDA acc, b :
           LET f == TLCEval(Field(b.P, b.tri, s))
               M == RMax(PMax(b.P), VMaxAbs(s))
               kg == RMul(b.k, MGal)
               kt == RMul(b.k, Eotvos)
           IN TLCEval([g |-> VAdd(acc.g, VScale(kg, f.g)), t |-> MAdd(acc.t, MScale(kt, f.t)),
                       tolg |-> RAdd(acc.tolg, RMul(RAbs(kg), TolG(f, M))),
                       tolt |-> RAdd(acc.tolt, RMul(RAbs(kt), TolT(f, M))),
                       vertex |-> acc.vertex \/ OnVertex(f),
                       off |-> acc.off /\ (Inside(f, M) \/ Outside(f, M))]),
         [g |-> VZero, t |-> MZero, tolg |-> 0, tolt |-> 0, vertex |-> FALSE, off |-> TRUE], bodies)

RowVerdict(r, c, row, given, f) ==
    LET p == <<row[1], row[2], row[3]>>
        g == <<row[4], row[5], row[6]>>
        t == <<row[7], row[8], row[9], row[10], row[11], row[12]>>
    IN (IF c.sys = "cart"
        THEN (IF ObsSrc(r).kind = "grid" \/ p = given THEN {} ELSE {"position"})
        ELSE LET q == Position(given, c)
             IN IF VNear(Position(p, WGS84C), q, PosTol(q)) /\ RLe(RAbs(p[2]), 90) THEN {} ELSE {"position"})
       \cup (IF VNear(g, f.g, f.tolg) THEN {} ELSE {"G"})
       \cup (IF "CALIB" \in DOMAIN IOEnv /\ RLt(0, f.tolg)
             THEN IF PrintT("CALIB " \o ToJson([g |-> RShow(RDiv(VMaxAbs(VSub(g, f.g)), f.tolg)),
                      r |-> RShow(RDiv(f.tolg, VMaxAbs(f.g))),
                      t |-> IF r.grad /\ f.off THEN RShow(RDiv(Fold(LAMBDA m, i : RMax(m, RAbs(RSub(t[i], Six(f.t)[i]))), 0, <<1, 2, 3, 4, 5, 6>>), f.tolt)) ELSE "0"]))
                  THEN {} ELSE {}
             ELSE {})
       \cup (IF r.grad
             THEN (IF ~f.off \/ \A i \in 1..6 : Near(t[i], Six(f.t)[i], f.tolt) THEN {} ELSE {"T"})
             ELSE (IF \A i \in 1..6 : REq(t[i], 0) THEN {} ELSE {"T-not-asked"}))

TableVerdict(r, rows, fields) ==
    LET c == ObsCrs(r)
        tb == r.table
    IN IF ~tb.ok \/ \E i \in DOMAIN tb.rows : Len(tb.rows[i]) # 12 THEN {"format"}
       ELSE (IF tb.names = Names(c) /\ tb.units = Units(c) THEN {} ELSE {"header"})
            \cup (IF Len(tb.rows) # Len(rows) THEN {"rows"}
                  ELSE UNION {RowVerdict(r, c, tb.rows[i], rows[i], fields[i]) : i \in DOMAIN rows})
            \cup (IF c.sys = "cart" /\ ObsSrc(r).kind = "grid"
                     /\ ~Coords(ObsSrc(r), [i \in DOMAIN tb.rows |-> <<tb.rows[i][1], tb.rows[i][2], tb.rows[i][3]>>])
                  THEN {"position"} ELSE {})

-----------------------------------------------------------------------------
(* files: sequences of pairs <<path, digest>> *)
AsFun(s) == [p \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = p][2]]
Untouched(r) == AsFun(r.after) = AsFun(r.before)
\* every file but the target as before, no file more
OnlyTarget(r) ==
    LET a == AsFun(r.after)
        b == AsFun(r.before)
    IN /\ r.target \in DOMAIN a
       /\ DOMAIN a = DOMAIN b \cup {r.target}
       /\ \A p \in DOMAIN b \ {r.target} : a[p] = b[p]
\* of a program that was killed: nothing that was there is damaged
Others(r) == LET a == AsFun(r.after)
                 b == AsFun(r.before)
             IN \A p \in DOMAIN b \ {r.target} : p \in DOMAIN a /\ a[p] = b[p]
TargetSame(r) == LET a == AsFun(r.after)
                     b == AsFun(r.before)
                 IN IF r.target \in DOMAIN b THEN r.target \in DOMAIN a /\ a[r.target] = b[r.target]
                    ELSE r.target \notin DOMAIN a

\* whole: the file at the target is what it must be; must: "succeed", "fail", "either"
FileVerdict(r, must, whole) ==
    IF ~PrintT("NOTE " \o r.op \o ": must " \o must) THEN {} ELSE
    IF r.fault = "kill" /\ r.fired
    THEN IF Others(r) /\ (TargetSame(r) \/ whole = {}) THEN {} ELSE {"damaged"}
    ELSE IF r.exit = 0
    THEN IF must = "fail" THEN {"accepted"}
         ELSE (IF OnlyTarget(r) THEN {} ELSE {"files"}) \cup whole
    ELSE (IF must = "succeed" THEN {"refused"} ELSE {})
         \cup (IF Untouched(r) THEN {}
               ELSE IF r.fault = "interrupt" /\ r.fired /\ OnlyTarget(r) /\ whole = {} THEN {}
               ELSE {"failed-changed"})
Shaky(r) == r.fault \in {"space", "interrupt", "kill"}

RunVerdict(r) ==
    IF ~r.readable THEN FileVerdict(r, "fail", {"accepted"})
    ELSE IF ~MassesBuild(r.layers, r.files) \/ ~DataOk(ObsNodes(r.layers), r.files)
    THEN FileVerdict(r, "fail", {"accepted"})
    ELSE
    LET n == NMasses(r.layers)
        bodies == TLCEval([i \in 1..n |-> Body(r, i)])
        rows == TLCEval(ObsRows(r))
        c == ObsCrs(r)
    IN IF \E i \in 1..n : ~BodyOk(bodies[i]) THEN {"oracle-hull"}
       ELSE IF \E i \in 1..n : bodies[i].flat THEN FileVerdict(r, "fail", {"accepted"})
       ELSE LET fields == TLCEval([i \in DOMAIN rows |-> Total(bodies, Position(rows[i], c))])
                either == \/ \E i \in DOMAIN rows : fields[i].vertex
                          \/ MassesMissing(r.layers, r.files) \/ DataMissing(ObsNodes(r.layers), r.files)
                          \/ Shaky(r)
            IN FileVerdict(r, IF r.blocked THEN "fail" ELSE IF either THEN "either" ELSE "succeed",
                           TableVerdict(r, rows, fields))
WriteVerdict(r) ==
    LET tb == r.table
        whole == IF tb.ok /\ tb.names = r.names[1] /\ tb.units = r.names[2] /\ tb.rows = r.given
                 THEN {} ELSE {"read-back"}
    IN FileVerdict(r, IF r.blocked THEN "fail" ELSE IF Shaky(r) THEN "either" ELSE "succeed", whole)
\* every parameter of the tree d is in the tree t
RECURSIVE Covers(_, _)
Covers(t, d) == CASE d.t = "map" -> /\ t.t = "map"
                                    /\ \A i \in DOMAIN d.m : HasKey(t, d.m[i][1]) /\ Covers(AtKey(t, d.m[i][1]), d.m[i][2])
                  [] d.t = "list" /\ d.l # <<>> /\ d.l[1].t = "map" -> t.t = "list" /\ t.l # <<>> /\ Covers(t.l[1], d.l[1])
                  [] OTHER -> TRUE
TemplateVerdict(r) ==
    LET a == AsFun(r.after)
        whole == (IF r.target \in DOMAIN a /\ a[r.target] = r.digest THEN {} ELSE {"template"})
                 \cup (IF r.loads THEN {} ELSE {"template-refused"})
                 \cup (IF r.layers # <<>> /\ Covers(r.layers[1], r.layers[2]) THEN {} ELSE {"template-incomplete"})
    IN FileVerdict(r, IF r.blocked THEN "fail" ELSE IF Shaky(r) THEN "either" ELSE "succeed", whole)
Verdict(r) == CASE r.op = "run" -> RunVerdict(r)
                [] r.op = "write" -> WriteVerdict(r)
                [] r.op = "config" -> TemplateVerdict(r)
                [] r.op = "ask" -> IF PrintT("NOTE ask: must " \o r.must) THEN AskVerdict(r, Untouched(r)) ELSE {}
Words(r) ==
    IF r.op \in {"write", "ask"} THEN {}
    ELSE Announced(r, r.fault = "interrupt" /\ r.fired /\ OnlyTarget(r))
         \cup (IF r.op = "run" /\ r.said.heard /\ r.exit = 0 /\ r.readable
               THEN IF ~PrintT("NOTE log: must tell") THEN {}
                    ELSE IF MassesOk(r.layers) /\ LogRight(r) THEN {} ELSE {"log"}
               ELSE {})

-----------------------------------------------------------------------------
(* Results are a function of the request (C19): what a run asks for, from    *)
(* whichever files, and the results it gave; two runs of a session that ask  *)
(* for the same must give the same.                                          *)
VARIABLES l, seen
Asks(r) == /\ r.op = "run" /\ r.fault = "none" /\ r.readable /\ ~r.blocked
           /\ MassesBuild(r.layers, r.files) /\ DataOk(ObsNodes(r.layers), r.files)
           /\ ~MassesMissing(r.layers, r.files) /\ ~DataMissing(ObsNodes(r.layers), r.files)
Given(ns) == Get(ns, IF IsTrue(Get(ns, "points")) THEN "points" ELSE "file_path")
Request(r) ==
    [masses |-> [i \in 1..NMasses(r.layers) |->
                    LET ns == MassNodes(r.layers, i)
                    IN <<Density(ns).v, Constant(ns).v, Given(ns), Source(ns, r.files).v, CrsOf(Under(ns, "crs")).v>>],
     obs |-> <<Given(ObsNodes(r.layers)), ObsSrc(r), ObsCrs(r)>>]
Gives(r) == [ok |-> r.exit = 0, table |-> r.table, grad |-> r.grad]
Cols(tb, a, b) == [i \in DOMAIN tb.rows |-> SubSeq(tb.rows[i], a, b)]
Largest(m) == Fold(LAMBDA x, row : Fold(LAMBDA y, v : RMax(y, RAbs(v)), x, row), 0, m)
SameCols(s, t, a, b) ==
    LET p == Cols(s, a, b)
        q == Cols(t, a, b)
        tol == RMul(RLit("1e-9"), Largest(p))
    IN p = q \/ \A i \in DOMAIN p : \A j \in DOMAIN p[i] : Near(p[i][j], q[i][j], tol)
Whole12(tb) == tb.ok /\ \A i \in DOMAIN tb.rows : Len(tb.rows[i]) = 12
Agree(x, y) ==
    /\ x.ok = y.ok
    /\ IF ~x.ok THEN TRUE
       ELSE /\ Whole12(x.table) /\ Whole12(y.table)
            /\ x.table.names = y.table.names /\ x.table.units = y.table.units
            /\ Len(x.table.rows) = Len(y.table.rows)
            /\ Cols(x.table, 1, 3) = Cols(y.table, 1, 3)
            /\ SameCols(x.table, y.table, 4, 6)
            /\ (x.grad # y.grad \/ SameCols(x.table, y.table, 7, 12))
Reproduced(r) ==
    IF ~Asks(r) THEN {}
    ELSE LET q == Request(r)
             old == SelectSeq(seen, LAMBDA e : e.trace = r.trace /\ e.req = q)
         IN IF old = <<>> THEN {}
            ELSE IF ~PrintT("NOTE run: must agree") THEN {}
            ELSE IF \A i \in DOMAIN old : Agree(old[i].res, Gives(r)) THEN {} ELSE {"differs"}
Remember(r) == IF ~Asks(r) THEN seen
               ELSE Append(SelectSeq(seen, LAMBDA e : e.trace = r.trace),
                           [trace |-> r.trace, req |-> Request(r), res |-> Gives(r)])

Init == l = 1 /\ seen = <<>>
Step == /\ l <= Len(Lines)
        /\ LET v == Verdict(Lines[l]) \cup Words(Lines[l]) \cup Reproduced(Lines[l])
           IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ seen' = Remember(Lines[l])
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1 /\ seen' = <<>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
