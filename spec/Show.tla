-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* What GEEC shows of a body (a picture, or a text) and of a station, and  *)
(* what looking at them does: nothing.  The state of a body is its points  *)
(* and faces, that of a station its coordinates and fields; looking is a   *)
(* transition that leaves both, and whose output is a function of them.    *)
(***************************************************************************)
EXTENDS Faces

\* the first few decimals of a number are shown
ShownTol(x) == RMul(RLit("1.01e-8"), RMax(1, RAbs(x)))
ShowsNum(t, x) == Near(t, x, ShownTol(x))
ShowsVec(t, v) == /\ DOMAIN t = DOMAIN v
                  /\ \A i \in DOMAIN v : ShowsNum(t[i], v[i])
ShowsAll(t, m) == /\ DOMAIN t = DOMAIN m
                  /\ \A i \in DOMAIN m : ShowsVec(t[i], m[i])

(* a picture draws the sides of the faces, each at least once, in either
   direction, and no other line *)
Lines2(S) == {{s[1], s[2]} : s \in S}
Drawn(seg) == {{seg[i][1], seg[i][2]} : i \in DOMAIN seg}
Picture(r, F) == /\ r.figs = 1
                 /\ r.other = 0
                 /\ Drawn(r.seg) = Lines2(SidesOf(F))

(* a text describes the points, and the faces one by one *)
ShowsFace(t, f) == /\ ShowsAll(t.c, f.c)
                   /\ ShowsVec(t.n, f.n)
                   /\ DOMAIN t.e = DOMAIN f.e
                   /\ \A i \in DOMAIN f.e : ShowsAll(t.e[i], f.e[i])
                   /\ t.s = f.s
                   /\ t.nb = f.nb
Text(b, P, F) == b.full => /\ ShowsAll(b.pts, P)
                           /\ DOMAIN b.faces = DOMAIN F
                           /\ \A k \in DOMAIN F : ShowsFace(b.faces[k], F[k])
StationText(r) == ShowsVec(r.coord, r.coord0) /\ ShowsVec(r.G, r.G0)

(* names: a face names its corners by their place among the points, and the
   faces beyond its sides by their place among the faces *)
Named(P, F) == \A k \in DOMAIN F :
    LET f == F[k] IN
    /\ DOMAIN f.s = DOMAIN f.c
    /\ \A i \in DOMAIN f.c : f.s[i] \in DOMAIN P /\ P[f.s[i]] = f.c[i]
    /\ {f.nb[i] : i \in DOMAIN f.nb} =
          {j \in DOMAIN F : \E a \in Corners(f), b \in Corners(F[j]) :
               /\ f.c[a] = F[j].c[Nx(F[j], b)]
               /\ f.c[Nx(f, a)] = F[j].c[b]}
=============================================================================
