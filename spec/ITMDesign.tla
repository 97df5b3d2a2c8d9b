----------------------------- MODULE ITMDesign -----------------------------
(***************************************************************************)
(* The specification against the properties it is meant to give: sessions  *)
(* (ITMSession) over a grid of situations, every history of at most        *)
(* ITM_LEN steps over a small set of questions, changes and preparations.  *)
(* Nothing here looks at the code; what is checked is that the model the   *)
(* code is compared with has the properties itself.                        *)
(***************************************************************************)
EXTENDS ITMSession, TLC, IOUtils

MaxLen == atoi(IOEnv.ITM_LEN)
Wide   == IOEnv.ITM_GRID = "wide"

Freqs   == IF Wide THEN {"20", "150", "900", "19000"} ELSE {"30", "500", "9000"}
Heights == IF Wide THEN { <<"0.6", "1">>, <<"3", "40">>, <<"30", "10">>, <<"200", "1.5">>, <<"3000", "900">> }
           ELSE { <<"2", "1.5">>, <<"30", "10">>, <<"900", "40">> }
Roughs  == IF Wide THEN {"0", "10", "90", "500"} ELSE {"0", "90", "400"}
Sitings == IF Wide THEN { <<1, 2>>, <<2, 0>> } ELSE { <<0, 0>>, <<2, 1>> }
Enss    == IF Wide THEN {"260", "370"} ELSE {"301"}
Grounds == IF Wide THEN { <<"25", "0.02", 0>>, <<"4", "0.001", 1>> } ELSE { <<"15", "0.005", 1>>, <<"81", "5", 0>> }

Sits == [f : Freqs, h : Heights, dh : Roughs, kst : Sitings, ens : Enss, g : Grounds]

Rec(s) ==
  LET wn == WaveNumber(R(s.f))
      z  == Impedance(s.g[3], R(s.g[1]), R(s.g[2]), wn)
  IN  [hg |-> <<R(s.h[1]), R(s.h[2])>>, wn |-> wn, dh |-> R(s.dh), ens |-> R(s.ens),
       gme |-> Curvature(R(s.ens)), zgnd |-> <<z.re, z.im>>, kwx |-> 0, lvar |-> 5, klim |-> 5, mdvar |-> 3]
Fresh(s) == PrepareArea(Begin(Rec(s)), s.kst, 0, -1)

VARIABLES sit, st, val, last, n
vars == <<sit, st, val, last, n>>

Init == /\ sit \in Sits
        /\ st = Fresh(sit) /\ val = RZero /\ last = "prepared" /\ n = 0

(* Distances in terms of the path's own landmarks.                         *)
Spots == {"zero", "0.1 dlsa", "0.7 dlsa", "dlsa", "1.5 dlsa", "dx", "2 dx"}
Coef == Coefs(st.p)
Dist(w, k) ==
  CASE w = "zero" -> RZero
    [] w = "0.1 dlsa" -> R("0.1") ** k.c.dlsa
    [] w = "0.7 dlsa" -> R("0.7") ** k.c.dlsa
    [] w = "dlsa" -> k.c.dlsa
    [] w = "1.5 dlsa" -> R("1.5") ** k.c.dlsa
    [] w = "dx" -> k.scat.dx
    [] OTHER -> RTwo ** k.scat.dx

Ask == \E w \in Spots : \E r \in {Propagate(st, Dist(w, Coef))} :
         st' = [r EXCEPT !.lvar = IMax(@, 1)] /\ last' = "asked" /\ UNCHANGED <<sit, val>>
Deviate == { <<"0", "0", "0">>, <<"-1.28", "0.5", "1.28">>, <<"2.33", "-1", "-2">>, <<"3.5", "0", "0">> }
Quant == /\ st.k # None
         /\ \E z \in Deviate : \E r \in {AskQuantile(st, R(z[1]), R(z[2]), R(z[3]))} :
              st' = r.st /\ val' = r.val /\ last' = "quantile" /\ UNCHANGED sit
Again == st' = PrepareArea(st, sit.kst, 0, -1) /\ last' = "prepared" /\ UNCHANGED <<sit, val>>
Other == \E k \in {1, 7, 9} : \E m \in {0, 11, 22, 35} :
           st' = PrepareArea(st, sit.kst, k, m) /\ last' = "prepared" /\ UNCHANGED <<sit, val>>
Climes == \E k \in {2, 4, 0} : st' = Change(st, [klim |-> k, lvar |-> 5]) /\ last' = "changed" /\ UNCHANGED <<sit, val>>
Next == n < MaxLen /\ n' = n + 1 /\ (Ask \/ Quant \/ Again \/ Other \/ Climes)
Spec == Init /\ [][Next]_vars

Known == st.k # None
Fin(x) == RFinite(x)
Same(a, b) == (Fin(a) /\ Fin(b)) => RClose(a, b, R("1e-7"), R("1e-9"))

----------------------------------------------------------------------------
(* C01: the answer is that of a session prepared afresh.                   *)
HistoryIndependent == (last = "asked") => st.aref = Attenuation(st.p.dist, Coefs(Fresh(sit).p))
(* C04                                                                     *)
NonNegative == ~(st.aref \prec RZero)
Continuous == Known =>
  LET k == st.k
      at == k.c.dlsa
  IN  /\ Same((k.los.ael ++ (k.los.ak1 ** at)) ++ (k.los.ak2 ** RLn(at)), k.line.aed ++ (k.line.emd ** at))
      /\ Same(k.scat.aes ++ (k.scat.ems ** k.scat.dx), k.line.aed ++ (k.line.emd ** k.scat.dx))
      /\ ~(k.scat.dx \prec k.c.dlsa)
(* C05: the marker never decreases, and is one of the documented values.   *)
MarkerRange == st.kw \subseteq 0..4
MarkerGrows == [][ \A k \in st'.kw : \E j \in st.kw : j <= k ]_vars
(* C07                                                                     *)
Ladder == << "-2.33", "-1.28", "-0.5", "0", "0.5", "1.28", "1.3", "2.16", "2.33" >>
At(i, zt, zl, zc) ==
  LET z == R(Ladder[i])
  IN  CASE zt = "*" -> Quantile(st.s, st.aref, z, R(zl), R(zc))
        [] zl = "*" -> Quantile(st.s, st.aref, R(zt), z, R(zc))
        [] OTHER -> Quantile(st.s, st.aref, R(zt), R(zl), z)
Falls(zt, zl, zc) ==
  \E q \in {Force([i \in 1..Len(Ladder) |-> At(i, zt, zl, zc)])} :
    \A i \in 1..(Len(Ladder) - 1) : q[i + 1] \preceq (q[i] ++ R("1e-9"))
Monotone == (last = "quantile") =>
  /\ Falls("*", "0", "0") /\ Falls("*", "-1.28", "0") /\ Falls("0", "*", "0") /\ Falls("1.28", "*", "0")
  /\ Falls("0", "0", "*") /\ Falls("1.28", "-0.5", "*")
(* C08: the deviations in use are those of the current values.             *)
UsesCurrent == (last = "quantile") =>
  /\ st.s = Spread(st.klim, st.mdvar, st.p.wn, st.p.he, st.p.dist, st.p.dh)
  /\ ClimateOK(st.klim)
(* C17: exchanging the terminals.                                          *)
Swap(s) == [s EXCEPT !.h = <<s.h[2], s.h[1]>>, !.kst = <<s.kst[2], s.kst[1]>>]
Reciprocal == (last = "asked") =>
  \E o \in {Fresh(Swap(sit))} : \E k \in {Coefs(o.p)} :
    /\ Same(Attenuation(st.p.dist, k), st.aref)
    /\ \A j \in 1..2 : o.p.he[j] = st.p.he[3 - j] /\ o.p.dl[j] = st.p.dl[3 - j] /\ o.p.the[j] = st.p.the[3 - j]
    /\ PathWarning(o.p, k.c, 0) = PathWarning(st.p, st.k.c, 0)
=============================================================================
