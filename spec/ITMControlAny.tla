--------------------------- MODULE ITMControlAny ---------------------------
(***************************************************************************)
(* ITMControl for histories of every length: instead of version numbers,   *)
(* every retained value carries the set of parameters that have changed    *)
(* since it was computed.  The state space is finite, so TLC covers        *)
(* unbounded histories; ITMControl is checked to refine this module.       *)
(***************************************************************************)
EXTENDS Integers
Level == [klim |-> 5, mdvar |-> 4, wn |-> 3, he |-> 2, dist |-> 1]
Params == DOMAIN Level
Uses == <<Params, {"wn", "he"}, {"klim", "wn"}, {"mdvar"}, {"klim"}>>   \* by level
New == "new"                 \* never computed

VARIABLES lvar, stale, asked, hush
vars == <<lvar, stale, asked, hush>>
Max(a, b) == IF a < b THEN b ELSE a

Init == /\ lvar = 5 /\ asked = FALSE /\ hush = {}
        /\ stale = [i \in 1..5 |-> {New}]
Touch(ps) == stale' = [i \in 1..5 |-> IF New \in stale[i] THEN {New} ELSE stale[i] \union (ps \intersect Uses[i])]
Heard(ps) == { q \in hush \union ps : Level[q] > lvar' }

Change(p, lv) == /\ lvar' = Max(lvar, lv) /\ Touch({p}) /\ hush' = Heard({}) /\ asked' = FALSE
Quiet(p) == /\ lvar' = lvar /\ Touch({p}) /\ hush' = Heard({p}) /\ asked' = FALSE
Prepare(k, m, given) ==
  /\ lvar' = IF k THEN 5 ELSE IF m THEN Max(lvar, 4) ELSE Max(lvar, 3)
  /\ Touch({"he", "dist"} \union given)
  /\ hush' = Heard({}) /\ asked' = FALSE
Ask ==
  /\ hush = {}
  /\ LET s5 == IF lvar > 4 THEN {} ELSE stale[5]
         s4 == IF lvar > 3 THEN {} ELSE stale[4]
         s3 == IF lvar > 2 THEN s5 ELSE stale[3]
         s2 == IF lvar > 1 THEN {} ELSE stale[2]
         s1 == IF lvar > 0 THEN s5 \union s4 \union s3 \union s2 ELSE stale[1]
     IN  stale' = <<s1, s2, s3, s4, s5>>
  /\ lvar' = 0 /\ asked' = TRUE /\ UNCHANGED hush
Next == \/ Ask
        \/ \E p \in Params, lv \in 1..5 : lv >= Level[p] /\ Change(p, lv)
        \/ \E p \in Params : Quiet(p)
        \/ \E k, m \in BOOLEAN :
             \E given \in SUBSET ((IF k THEN {"klim"} ELSE {}) \union (IF m THEN {"mdvar"} ELSE {})) : Prepare(k, m, given)
Spec == Init /\ [][Next]_vars

Coherent == asked => \A i \in 1..5 : stale[i] = {}
Settled == asked => lvar = 0
(* Whatever is stale and not announced is known to the caller as unannounced, *)
(* which is why asking with nothing unannounced is safe.                      *)
Covered == \A i \in 1..5 : (stale[i] # {} => lvar >= 1 \/ hush # {}) 
=============================================================================
