----------------------------- MODULE ITMControl -----------------------------
(***************************************************************************)
(* The change-level protocol of the variability routine.  Parameters carry *)
(* version numbers; cur holds the current ones, and the routine retains    *)
(* intermediate values that remember the versions they were computed from: *)
(*   level 5 the climate constants           (klim)                        *)
(*   level 4 the variability mode            (mdvar)                       *)
(*   level 3 the frequency gains             (climate constants, wn)       *)
(*   level 2 the reference distance          (wn, he)                      *)
(*   level 1 effective distance, deviations  (everything above, dist)      *)
(* A caller announces a change with a level at least that of the parameter *)
(* changed; the routine recomputes every level up to the announced one.    *)
(* hush is the set of parameters changed without announcement; a caller    *)
(* announces them later, or a preparation does it, before asking.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.ITM_LEN)

Level == [klim |-> 5, mdvar |-> 4, wn |-> 3, he |-> 2, dist |-> 1]
Params == DOMAIN Level

VARIABLES cur, lvar, c5, c4, c3, c2, c1, asked, hush, done
vars == <<cur, lvar, c5, c4, c3, c2, c1, asked, hush, done>>

Zero == [p \in Params |-> 0]
Init == /\ cur = Zero /\ lvar = 5
        /\ c5 = -1 /\ c4 = -1 /\ c3 = <<-1, -1>> /\ c2 = <<-1, -1>>
        /\ c1 = <<-1>> /\ asked = FALSE /\ hush = {} /\ done = <<>>

Max(a, b) == IF a < b THEN b ELSE a

(* The caller changes p and announces it, exactly or with a higher level.  *)
Change(p, lv, name) ==
  /\ cur' = [cur EXCEPT ![p] = @ + 1]
  /\ lvar' = Max(lvar, lv)
  /\ hush' = { q \in hush : Level[q] > lvar' }
  /\ asked' = FALSE
  /\ done' = Append(done, name)
  /\ UNCHANGED <<c5, c4, c3, c2, c1>>

(* The caller changes p and says nothing yet.                              *)
Quiet(p, name) ==
  /\ cur' = [cur EXCEPT ![p] = @ + 1]
  /\ hush' = { q \in hush \union {p} : Level[q] > lvar }
  /\ asked' = FALSE
  /\ done' = Append(done, name)
  /\ UNCHANGED <<lvar, c5, c4, c3, c2, c1>>

(* Preparing a path or area changes he (and, point to point, dist), and    *)
(* mode and climate where given (maybe to the value they have, v = 0); it  *)
(* raises the level itself.                                                *)
Prepare(k, m, v, name) ==
  /\ cur' = [cur EXCEPT !.he = @ + 1, !.dist = @ + 1,
                        !.klim = IF k THEN @ + v ELSE @, !.mdvar = IF m THEN @ + v ELSE @]
  /\ lvar' = IF k THEN 5 ELSE IF m THEN Max(lvar, 4) ELSE Max(lvar, 3)
  /\ hush' = { q \in hush : Level[q] > lvar' }
  /\ asked' = FALSE
  /\ done' = Append(done, name)
  /\ UNCHANGED <<c5, c4, c3, c2, c1>>

Ask ==
  LET k5 == IF lvar > 4 THEN cur.klim ELSE c5
      k4 == IF lvar > 3 THEN cur.mdvar ELSE c4
      k3 == IF lvar > 2 THEN <<k5, cur.wn>> ELSE c3
      k2 == IF lvar > 1 THEN <<cur.wn, cur.he>> ELSE c2
  IN  /\ hush = {}
      /\ c5' = k5 /\ c4' = k4 /\ c3' = k3 /\ c2' = k2
      /\ c1' = IF lvar > 0 THEN <<k5, k4, k3, k2, cur.dist>> ELSE c1
      /\ lvar' = 0 /\ asked' = TRUE
      /\ done' = Append(done, "ask")
      /\ UNCHANGED <<cur, hush>>

Next ==
  /\ Len(done) < MaxLen
  /\ \/ Ask
     \/ \E p \in Params : Change(p, Level[p], p)
     \/ Change("wn", 4, "wn4") \/ Change("he", 3, "he3") \/ Change("dist", 5, "dist5")
     \/ Change("mdvar", 5, "mdvar5")
     \/ \E p \in {"klim", "mdvar", "wn"} : Quiet(p, p \o "0")
     \/ Prepare(FALSE, FALSE, 1, "area") \/ Prepare(TRUE, FALSE, 1, "areaK")
     \/ Prepare(FALSE, TRUE, 1, "areaM") \/ Prepare(FALSE, FALSE, 1, "p2p")
     \/ Prepare(TRUE, TRUE, 1, "p2pKM")
     \/ Prepare(TRUE, TRUE, 0, "areaKM=") \/ Prepare(TRUE, TRUE, 0, "p2pKM=")
     \/ Prepare(TRUE, FALSE, 0, "p2pK=") \/ Prepare(FALSE, TRUE, 0, "p2pM=")
Spec == Init /\ [][Next]_vars

(* After a question every retained value stems from the current parameters. *)
Coherent ==
  asked => c1 = <<cur.klim, cur.mdvar, <<cur.klim, cur.wn>>, <<cur.wn, cur.he>>, cur.dist>>
(* Without a change a question finds nothing to do. *)
Settled == asked => lvar = 0

Emit == (Len(done) = MaxLen /\ asked) => PrintT("CASE " \o ToJson([h |-> done]))
(* The unbounded model, of which this is a refinement.                     *)
Gone(e, p) == IF e = -1 THEN {"new"} ELSE IF e = cur[p] THEN {} ELSE {p}
S3 == IF c3[1] = -1 THEN {"new"} ELSE Gone(c3[1], "klim") \union Gone(c3[2], "wn")
S2 == IF c2[1] = -1 THEN {"new"} ELSE Gone(c2[1], "wn") \union Gone(c2[2], "he")
S1 == IF c1 = <<-1>> THEN {"new"}
      ELSE Gone(c1[1], "klim") \union Gone(c1[2], "mdvar") \union Gone(c1[3][1], "klim") \union Gone(c1[3][2], "wn")
           \union Gone(c1[4][1], "wn") \union Gone(c1[4][2], "he") \union Gone(c1[5], "dist")
Ever == INSTANCE ITMControlAny WITH stale <- [i \in 1..5 |->
         CASE i = 1 -> S1 [] i = 2 -> S2 [] i = 3 -> S3 [] i = 4 -> Gone(c4, "mdvar") [] OTHER -> Gone(c5, "klim")]
Refines == Ever!Spec
=============================================================================
