----------------------------- MODULE ConfigGen -----------------------------
(***************************************************************************)
(* Configurations for the replay, printed as JSON.  A tree is a token      *)
(* (a string the replay turns into a value), <<"map", pairs>> or           *)
(* <<"list", items>>.  A history is a sequence of loads, each with a user  *)
(* file (or none, or the one already there) and an argument file (or none).*)
(*   CSpec  every reference system (exhaustive)                            *)
(*   SSpec  every combination of sources of coordinates over two layers    *)
(*          (exhaustive)                                                   *)
(*   RSpec  random histories of layered files (-simulate)                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Gen == TLCEval(JsonDeserialize(IOEnv.GEN))
VARIABLES hist, todo
vars == <<hist, todo>>

Present(pairs) == SelectSeq(pairs, LAMBDA p : ToString(p[2]) # ToString("@absent"))
Map(pairs) == <<"map", Present(pairs)>>
List(items) == <<"list", items>>
Load(user, arg) == [user |-> user, arg |-> arg]
Say(h) == PrintT("SCN " \o ToJson(h))

Crs(ref, name, a, b, lon, lat, alt, vd) ==
    Map(<<<<"ref", ref>>, <<"name", name>>, <<"semimajor_axis", a>>, <<"semiminor_axis", b>>,
          <<"longitude_origin", lon>>, <<"latitude_origin", lat>>, <<"altitude_origin", alt>>,
          <<"vdatum", vd>>>>)
PlainCrs == Crs("cart", "@null", "@null", "@null", "@null", "@null", "@null", "@null")
Data(crs, who) == IF who = "mass"
                  THEN <<<<"masses", List(<<Map(<<<<"points", "@pts">>, <<"crs", crs>>>>)>>)>>>>
                  ELSE <<<<"observers", Map(<<<<"points", "@pts">>, <<"crs", crs>>>>)>>>>

-----------------------------------------------------------------------------
Refs == {"@absent", "@null", "cart", "ellps", "enu", "ecef", "CART", "Ellps", "eNU", "ECEF",
         "wgs84", "@num", "enus", "car", "@true"}
Names == {"@absent", "@null", "@empty", "wgs84", "airy", "nosuch", "mars"}
Axes == {<<"@null", "@null">>, <<"@axis1", "@axis2">>, <<"@axis1", "@null">>, <<"@null", "@axis2">>,
         <<"@word", "@axis2">>}
Origins == {<<"@null", "@null", "@null">>, <<"@lon", "@lat", "@num">>, <<"@zero", "@zero", "@zero">>,
            <<"@lon", "@null", "@num">>, <<"@int", "@lat", "@null">>, <<"@lon", "@lat", "@word">>,
            <<"@null", "@lat", "@num">>}
VDs == {"@absent", "@null", "ellps", "egm84", "egm96", "egm2008", "egm08", "EGM84", "Egm96",
        "EGM2008", "EGM08", "ELLPS", "egm97", "egm", "@num", "geoid"}
AllNames == {"maupertuis", "plessis", "everest1830", "everest1830m", "everest1967", "airy",
    "bessel", "clarke1866", "clarke1878", "clarke1860", "helmert", "hayford",
    "international1924", "krassovsky1940", "wgs66", "australian", "international1967", "grs67",
    "sa1969", "wgs72", "grs80", "wgs84", "wgs84_mean", "iers1989", "pz90.11", "iers2003",
    "gsk2011", "mercury", "venus", "moon", "mars", "jupyter", "io", "saturn", "uranus",
    "neptune", "pluto"}
\* names that are almost known
OddNames == {"WGS84", "Airy", "wgs8", "wgs84 ", "pz90_11", "wgs_84", "GRS80"}
Kinds == {"@null", "ellps", "enu", "ecef", "cart", "Enu", "nosuch"}
CrsSet ==
    \* each pair of parameters in full, the others plain
    {Crs(r, n, a[1], a[2], o[1], o[2], o[3], v) :
        r \in {"@null", "enu"}, n \in Names, a \in Axes, o \in Origins,
        v \in {"@null", "egm96", "egm97"}}
    \cup {Crs(r, n, "@null", "@null", "@lon", "@lat", "@num", v) : r \in Refs, n \in Names, v \in VDs}
    \cup {Crs(r, n, a[1], a[2], "@lon", "@lat", "@num", "egm84") :
        r \in Kinds, n \in AllNames \cup OddNames, a \in {<<"@null", "@null">>, <<"@axis1", "@axis2">>}}
CInit == \E c \in CrsSet, w \in {"mass", "obs"} :
            todo = Data(c, w) /\ hist = <<>>
Emit == /\ hist = <<>>
        /\ Say(<<Load("@none", Map(todo))>>)
        /\ hist' = <<1>>
        /\ UNCHANGED todo
CSpec == CInit /\ [][Emit]_vars

-----------------------------------------------------------------------------
P == {"@absent", "@null", "@nolist", "@pts"}
F == {"@absent", "@null", "@empty", "@file", "@nofile"}
G == {"@absent", "@null", "@grid"}
Who(who, p, f, g) ==
    IF p = "@absent" /\ f = "@absent" /\ g = "@absent" /\ who = "mass"
    THEN Map(<<>>)
    ELSE LET d == Map(<<<<"points", p>>, <<"file_path", f>>, <<"grid", g>>, <<"crs", PlainCrs>>>>)
         IN IF who = "mass" THEN Map(<<<<"masses", List(<<d>>)>>>>)
            ELSE Map(<<<<"observers", d>>>>)
SInit == \E w \in {"mass", "obs"}, p \in P, f \in F, g \in G,
            p2 \in P, f2 \in {"@absent", "@file", "@null"}, g2 \in {"@absent", "@grid"} :
            todo = <<Who(w, p2, f2, g2), Who(w, p, f, g)>> /\ hist = <<>>
SEmit == /\ hist = <<>>
         /\ Say(<<Load(todo[1], todo[2])>>)
         /\ hist' = <<1>>
         /\ UNCHANGED todo
SSpec == SInit /\ [][SEmit]_vars

-----------------------------------------------------------------------------
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Among(s) == s[Pick(DOMAIN s)]
\* absent in n cases of 10
Maybe(n, s) == IF Pick(1..10) <= n THEN "@absent" ELSE Among(s)
RCrs(n) == Crs(Maybe(n, <<"cart", "ellps", "enu", "ecef", "@null", "ENU", "Cart">>),
               Maybe(n, <<"@null", "wgs84", "airy", "bessel", "clarke1866", "@null", "@empty">>),
               Maybe(n, <<"@null", "@axis1", "@axis1">>), Maybe(n, <<"@null", "@axis2", "@axis2">>),
               Maybe(n, <<"@lon", "@lon", "@zero", "@null">>), Maybe(n, <<"@lat", "@lat", "@zero">>),
               Maybe(n, <<"@num", "@int", "@zero">>),
               Maybe(n, <<"@null", "ellps", "egm84", "egm96", "egm2008", "EGM08", "egm96">>))
RData(n, grid) ==
    <<<<"points", Maybe(n, <<"@pts", "@pts", "@pts", "@null", "@nolist", "@ints">>)>>,
      <<"file_path", Maybe(n, <<"@file", "@file", "@null", "@empty", "@nofile", "@file">>)>>,
      <<"grid", IF grid THEN Maybe(n, <<"@grid", "@grid", "@grid", "@null", "@grid1">>) ELSE "@absent">>,
      <<"crs", IF Pick(1..10) <= n THEN "@absent" ELSE RCrs(n)>>>>
RMass(n) == Map(RData(n, Pick(1..8) = 1) \o
                <<<<"density", Maybe(n, <<"@num", "@num", "@int", "@zero", "@num", "@num", "@int", "@num", "@num",
                                              IF Pick(1..3) = 1 THEN "@word" ELSE "@num">>)>>,
                  <<"gravity_constant", Maybe(n, <<"@num", "@gc", "@gc">>)>>>>)
\* entries after the first have no default below them: mostly complete
RMasses(n) == List([i \in 1..Pick(1..3) |-> RMass(IF i > 1 /\ Pick(1..4) > 1 THEN 0 ELSE n)])
RFile(n) == Map(<<<<"masses", IF Pick(1..10) <= 2 THEN "@absent" ELSE RMasses(n)>>,
                  <<"observers", IF Pick(1..10) <= 2 THEN "@absent" ELSE Map(RData(n, TRUE))>>>>)
RLoad == Load(IF Pick(1..10) <= 2 THEN "@none" ELSE IF Pick(1..10) <= 4 THEN "@keep" ELSE RFile(Pick(2..8)),
              IF Pick(1..10) <= 2 THEN "@none" ELSE RFile(Pick(1..8)))
RInit == hist = <<>> /\ todo = 0
RNext == /\ todo = 0
         /\ IF Len(hist) < Gen.depth
            THEN hist' = Append(hist, TLCEval(RLoad)) /\ UNCHANGED todo
            ELSE Say(hist) /\ todo' = 1 /\ UNCHANGED hist
RSpec == RInit /\ [][RNext]_vars
=============================================================================
