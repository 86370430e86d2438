---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Trace specification for loading configurations: each line is one load,  *)
(* with the content of the three files at that time, and what GEEC made of *)
(* it: values of parameters (probes), mass bodies, observers.              *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Lines == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Walk(ns, path) == Fold(LAMBDA a, s : IF s.k = "" THEN Item(a, s.i) ELSE Under(a, s.k), ns, path)
RECURSIVE SameNode(_, _)
SameNode(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "num" -> REq(a.v, b.v)
         [] a.t = "str" -> a.v = b.v
         [] a.t = "bool" -> a.v = b.v
         [] a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : SameNode(a.l[i], b.l[i])
         [] OTHER -> TRUE
ProbeOk(r, p) == LET n == First(Walk(r.layers, p.path))
                 IN n.t = "map" \/ n.t = "bad" \/ SameNode(n, p.got)

CrsSame(want, got) ==
    /\ want.sys = got.sys /\ want.vd = got.vd
    /\ want.sys \in {"ellps", "enu"} => REq(want.a, got.a) /\ REq(want.b, got.b)
    /\ want.sys = "enu" => \A i \in 1..3 : REq(want.org[i], got.org[i])
DataVerdict(ns, d, files) ==
    LET s == Source(ns, files)
        c == CrsOf(Under(ns, "crs"))
    IN (IF ~s.ok THEN {"accepted-source"} ELSE IF Coords(s.v, d.coords) THEN {} ELSE {"coords"})
       \cup (IF ~c.ok THEN {"accepted-crs"} ELSE IF CrsSame(c.v, d.crs) THEN {} ELSE {"crs"})
       \cup (IF d.names = "" \/ d.names = (IF d.crs.sys = "cart" THEN "x_mes y_mes z_mes"
                                           ELSE "lon_mes lat_mes alt_mes")
             THEN {} ELSE {"names"})
MassVerdict(ns, d, files) ==
    DataVerdict(ns, d, files)
    \cup (LET q == Density(ns)
          IN IF ~q.ok THEN {"accepted-number"} ELSE IF REq(q.v, d.rho) THEN {} ELSE {"density"})
    \cup (LET q == Constant(ns)
          IN IF ~q.ok THEN {"accepted-number"} ELSE IF REq(q.v, d.gc) THEN {} ELSE {"constant"})

\* only the reference systems are at fault
CrsAlone(nss, files) == /\ \A i \in DOMAIN nss : Source(nss[i], files).ok /\ ~SourceMissing(nss[i], files)
                        /\ \E i \in DOMAIN nss : ~CrsOf(Under(nss[i], "crs")).ok
Refusal(x, nss, files, builds, missing) ==
    IF builds /\ ~missing
    THEN {"refused"}
    ELSE IF CrsAlone(nss, files) /\ ~missing /\ ~x.cfgerr THEN {"not-a-configuration-error"} ELSE {}

Must(builds, missing) == IF missing THEN "either" ELSE IF builds THEN "accept" ELSE "refuse"
Verdict(r) ==
    IF ~r.ok THEN {"raised"}
    ELSE IF ~PrintT("NOTE masses: must " \o Must(MassesBuild(r.layers, r.files), MassesMissing(r.layers, r.files)))
            \/ ~PrintT("NOTE observers: must " \o Must(DataOk(ObsNodes(r.layers), r.files), DataMissing(ObsNodes(r.layers), r.files)))
    THEN {}
    ELSE
    LET n == NMasses(r.layers)
        ms == [i \in 1..n |-> MassNodes(r.layers, i)]
        ob == ObsNodes(r.layers)
    IN UNION {IF ProbeOk(r, r.probes[i]) THEN {} ELSE {"value"} : i \in DOMAIN r.probes}
       \cup (IF r.masses.ok
             THEN IF Len(r.masses.items) # n THEN {"count"}
                  ELSE UNION {MassVerdict(ms[i], r.masses.items[i], r.files) : i \in 1..n}
             ELSE Refusal(r.masses, ms, r.files,
                          MassesBuild(r.layers, r.files), MassesMissing(r.layers, r.files)))
       \cup (IF r.obs.ok THEN DataVerdict(ob, r.obs.items[1], r.files)
             ELSE Refusal(r.obs, <<ob>>, r.files, DataOk(ob, r.files), DataMissing(ob, r.files)))

VARIABLES l
Init == l = 1
Step == /\ l <= Len(Lines)
        /\ LET v == Verdict(Lines[l]) IN v # {} => PrintT("FAIL " \o ToJson(<<Lines[l].id, v>>))
        /\ l' = l + 1
Done == /\ l = Len(Lines) + 1
        /\ PrintT("DONE " \o ToString(Len(Lines)))
        /\ l' = l + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_l
=============================================================================
