----------------------------- MODULE ITMProfile -----------------------------
(***************************************************************************)
(* Every terrain profile over a small alphabet of elevations, grown point  *)
(* by point, with the properties the terrain part of the specification is  *)
(* meant to have checked on each; the profiles are emitted and replayed    *)
(* into the real code.                                                     *)
(***************************************************************************)
EXTENDS ITMAttenuation, TLC, Json, IOUtils

MaxPts == atoi(IOEnv.ITM_PTS)
Letters == {"0", "35", "240"}
Xi  == RI(4096)
Hgs == { <<RI(10), RI(10)>>, <<RI(90), RI(2)>> }
Gme == Curvature(RI(301))

VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxPts /\ \E l \in Letters : w' = Append(w, l)
Spec == Init /\ [][Next]_w

Z == Force([i \in 1..Len(w) |-> R(w[i])])
Np == Len(w) - 1
Complete == Len(w) >= 2
D == RI(Np) ** Xi
Raise(z, c) == Force([i \in 1..Len(z) |-> z[i] ++ c])
Rev(z) == Force(Reverse(z))
Flip(p) == <<p[2], p[1]>>
Close(a, b) == RClose(a, b, R("1e-9"), R("1e-9"))

(* C09                                                                     *)
Seen == Complete => \A hg \in Hgs : \E h \in {Hzns(Z, Xi, D, hg, Gme)} :
  /\ \A j \in 1..2 : h.dl[j] \preceq D /\ RZero \prec h.dl[j]
  /\ (h.dl[1] = D) <=> (h.dl[2] = D)
  /\ \A j \in 1..2 : \A i \in 1..Np : ~(h.the[j] \prec Views(Z, Xi, D, hg, Gme, j = 1)[i].ang)
HorizonsExchange == Complete => \A hg \in Hgs : \E h \in {Hzns(Z, Xi, D, hg, Gme)} :
  \E g \in {Hzns(Rev(Z), Xi, D, Flip(hg), Gme)} :
    \A j \in 1..2 : Close(h.the[j], g.the[3 - j]) /\ Close(h.dl[j], g.dl[3 - j])
(* C10                                                                     *)
LineShifts == Complete =>
  \A a \in 0..Np : \A b \in a..Np :
    \E l \in {Zlsq1(Z, Xi, RI(a) ** Xi, RI(b) ** Xi)} :
    \E s \in {Zlsq1(Raise(Z, RI(512)), Xi, RI(a) ** Xi, RI(b) ** Xi)} :
    \E r \in {Zlsq1(Rev(Z), Xi, RI(Np - b) ** Xi, RI(Np - a) ** Xi)} :
      /\ Close(s.z0, l.z0 ++ RI(512)) /\ Close(s.zn, l.zn ++ RI(512))
      /\ Close(r.z0, l.zn) /\ Close(r.zn, l.z0)
(* C11                                                                     *)
Irregularity == Complete => \E dh \in {Dlthx(Z, Xi, RZero, D, 0)} :
  /\ RZero \preceq dh
  /\ Close(Dlthx(Raise(Z, RI(512)), Xi, RZero, D, 0), dh)
  /\ Close(Dlthx(Rev(Z), Xi, RZero, D, 0), dh)
(* C12, C17, C18                                                           *)
SameGeometry(g, h) == /\ \A j \in 1..2 : Close(g.he[j], h.he[j]) /\ Close(g.dl[j], h.dl[j]) /\ Close(g.the[j], h.the[j])
                      /\ Close(g.dh, h.dh) /\ g.los = h.los
Geometry == Complete => \A hg \in Hgs : \E g \in {P2PGeometry(Z, Xi, hg, Gme, NoSlack)} :
  \E r \in {P2PGeometry(Rev(Z), Xi, Flip(hg), Gme, NoSlack)} :
    /\ \A j \in 1..2 : hg[j] \preceq g.he[j]
    /\ g.los => g.dist \preceq ((g.dl[1] ++ g.dl[2]) ** R("1.000001"))
    /\ SameGeometry(g, P2PGeometry(Raise(Z, RI(-1024)), Xi, hg, Gme, NoSlack))
    /\ SameGeometry(g, [r EXCEPT !.he = Flip(@), !.dl = Flip(@), !.the = Flip(@)])
Emit == Complete => PrintT("CASE " \o ToJson([z |-> w]))
=============================================================================
