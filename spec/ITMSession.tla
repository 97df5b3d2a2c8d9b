----------------------------- MODULE ITMSession -----------------------------
(***************************************************************************)
(* One session with the library, as the manual's "suggested operational    *)
(* flow" describes it: the caller owns one parameter set (the dict `prop`), *)
(* prepares it for a mode, asks for reference attenuations and then for    *)
(* quantiles.  The session state is a record                               *)
(*                                                                         *)
(*   p      primary parameters: hg wn dh ens gme zgnd he dl the dist mdp   *)
(*   k      coefficients derived from p when the path was last prepared    *)
(*   kw     the set of values the warning marker can have (one value,      *)
(*          except where a parameter lies on a computed limit up to        *)
(*          rounding)                                                      *)
(*   lvar   the announced change level                                     *)
(*   klim, mdvar  climate and mode in force                                *)
(*   s      the deviations (Spread) last computed                          *)
(*   aref   the reference attenuation                                      *)
(*                                                                         *)
(* Every public entry point is one action, given here as the function from *)
(* state (and arguments) to state.                                         *)
(***************************************************************************)
EXTENDS ITMVariability

None == [none |-> TRUE]

(* A new parameter set.                                                    *)
Begin(a) ==
  [p |-> [hg |-> a.hg, wn |-> a.wn, dh |-> a.dh, ens |-> a.ens, gme |-> a.gme,
          zgnd |-> CX(a.zgnd[1], a.zgnd[2]),
          he |-> a.hg, dl |-> a.hg, the |-> a.hg, dist |-> RZero, mdp |-> 1],
   k |-> None, kw |-> {a.kwx}, lvar |-> a.lvar, klim |-> a.klim, mdvar |-> a.mdvar,
   s |-> None, aref |-> RZero]

Worse(kw, ws) == { IMax(k, w) : k \in kw, w \in ws }
PathWarnings(p, c)     == { PathWarning(p, c, e) : e \in {-1, 0, 1} }
DistanceWarnings(d, c) == { DistanceWarning(d, c, e) : e \in {-1, 0, 1} }

(* qlra and qlrpfl share the way they hand on climate and mode.            *)
Announce(st, klimx, mdvarx) ==
  LET l3 == IMax(st.lvar, 3)
      l4 == IF mdvarx >= 0 THEN IMax(l3, 4) ELSE l3
      l5 == IF klimx > 0 THEN 5 ELSE l4
  IN  [st EXCEPT !.lvar = l5,
                 !.mdvar = IF mdvarx >= 0 THEN mdvarx ELSE @,
                 !.klim = IF klimx > 0 THEN klimx ELSE @]

PrepareArea(st, kst, klimx, mdvarx) ==
  LET g == AreaGeometry(kst, st.p.hg, st.p.dh, st.p.gme)
  IN  Announce([st EXCEPT !.p.he = g.he, !.p.dl = g.dl, !.p.the = g.the, !.p.mdp = 1],
               klimx, mdvarx)

(* lrprop in point-to-point mode ignores its argument; in area mode the    *)
(* first call derives the coefficients, later calls only move.             *)
Propagate(st, d) ==
  LET fresh == st.p.mdp # 0
      k     == IF fresh THEN Coefs(st.p) ELSE st.k
      dist  == IF st.p.mdp >= 0 THEN d ELSE st.p.dist
      w1    == IF fresh THEN Worse(st.kw, PathWarnings(st.p, k.c)) ELSE st.kw
  IN  [st EXCEPT !.k = k, !.p.dist = dist,
                 !.p.mdp = IF @ >= 0 THEN 0 ELSE @,
                 !.kw = Worse(w1, DistanceWarnings(dist, k.c)),
                 !.aref = Attenuation(dist, k)]

(* qlrpfl: geometry of the profile, then the propagation core.             *)
WithGeometry(st, g, klimx, mdvarx) ==
  Announce([st EXCEPT !.p.he = g.he, !.p.dl = g.dl, !.p.the = g.the, !.p.dh = g.dh,
                      !.p.dist = g.dist, !.p.mdp = -1],
           klimx, mdvarx)
PrepareP2P(st, z, xi, klimx, mdvarx, sl) ==
  Propagate(WithGeometry(st, P2PGeometry(z, xi, st.p.hg, st.p.gme, sl), klimx, mdvarx), RZero)

(* avar.  What has been announced is recomputed from the current values;   *)
(* in a coherent history (Coherent below) that is everything that changed. *)
AskQuantile(st, zt, zl, zc) ==
  LET klim1 == IF st.lvar > 4 THEN Climate(st.klim) ELSE st.klim
      w == IF st.lvar > 4 THEN ChoiceWarning(st.klim, st.mdvar)
           ELSE IF st.lvar > 3 THEN ChoiceWarning(5, st.mdvar) ELSE 0
      s == IF st.lvar > 0
           THEN Spread(klim1, st.mdvar, st.p.wn, st.p.he, st.p.dist, st.p.dh) ELSE st.s
  IN  [st |-> [st EXCEPT !.klim = klim1, !.s = s, !.lvar = 0,
                         !.kw = Worse(@, {IMax(w, DeviateWarning(s.kdv, zt, zl, zc))})],
       val |-> Quantile(s, st.aref, zt, zl, zc)]

(* A caller that changes a parameter between questions.                    *)
Change(st, a) ==
  [st EXCEPT !.klim  = IF "klim" \in DOMAIN a THEN a.klim ELSE @,
             !.mdvar = IF "mdvar" \in DOMAIN a THEN a.mdvar ELSE @,
             !.lvar  = IF "lvar" \in DOMAIN a THEN IMax(a.lvar, @) ELSE @,
             !.kw    = IF "kwx" \in DOMAIN a THEN {a.kwx} ELSE @,
             !.aref  = IF "aref" \in DOMAIN a THEN a.aref ELSE @,
             !.p.dist = IF "dist" \in DOMAIN a THEN a.dist ELSE @,
             !.p.he  = IF "he" \in DOMAIN a THEN a.he ELSE @,
             !.p.dl  = IF "dl" \in DOMAIN a THEN a.dl ELSE @,
             !.p.the = IF "the" \in DOMAIN a THEN a.the ELSE @,
             !.p.wn  = IF "wn" \in DOMAIN a THEN a.wn ELSE @,
             !.p.ens = IF "ens" \in DOMAIN a THEN a.ens ELSE @,
             !.p.gme = IF "gme" \in DOMAIN a THEN a.gme ELSE @,
             !.p.zgnd = IF "zgnd" \in DOMAIN a THEN CX(a.zgnd[1], a.zgnd[2]) ELSE @,
             !.p.dh  = IF "dh" \in DOMAIN a THEN a.dh ELSE @,
             !.p.hg  = IF "hg" \in DOMAIN a THEN a.hg ELSE @,
             !.p.mdp = IF "mdp" \in DOMAIN a THEN a.mdp ELSE @]
=============================================================================
