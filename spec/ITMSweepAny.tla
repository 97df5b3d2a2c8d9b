---------------------------- MODULE ITMSweepAny ----------------------------
(***************************************************************************)
(* ITMSweep for histories of every length: instead of counting the         *)
(* preparations, each retained coefficient is "none", "now" (of the        *)
(* current preparation) or "old".  The state space is finite, so TLC       *)
(* covers unbounded histories; ITMSweep is checked to refine this module.  *)
(***************************************************************************)
VARIABLES first, diff, los, scat,
          last     \* the last question and what it was answered from
vars == <<first, diff, los, scat, last>>
Where == {"zero", "los", "near", "edge", "diff", "scat"}
Age == {"none", "now", "old"}
Older(a) == IF a = "none" THEN "none" ELSE "old"

Init == first = TRUE /\ diff = "none" /\ los = "none" /\ scat = "none" /\ last = <<"none">>
Prepare == /\ first' = TRUE /\ diff' = Older(diff) /\ los' = Older(los) /\ scat' = Older(scat)
           /\ last' = <<"none">>
Ask(w) ==
  LET diff1 == IF first THEN "now" ELSE diff
      los1  == IF first THEN "none" ELSE los
      scat1 == IF first THEN "none" ELSE scat
      inlos == w \in {"zero", "los", "near"}
      beyond == w \in {"zero", "edge", "diff", "scat"}
  IN  /\ first' = FALSE /\ diff' = diff1
      /\ los' = IF inlos /\ los1 = "none" THEN diff1 ELSE los1
      /\ scat' = IF beyond /\ scat1 = "none" THEN diff1 ELSE scat1
      /\ last' = <<w, diff1, IF beyond THEN scat' ELSE los'>>
Next == Prepare \/ \E w \in Where : Ask(w)
Spec == Init /\ [][Next]_vars

TypeOK == first \in BOOLEAN /\ diff \in Age /\ los \in Age /\ scat \in Age
NeverStale == ~first => diff = "now" /\ los # "old" /\ scat # "old"
HistoryIndependent == last # <<"none">> => last[2] = "now" /\ last[3] = "now"
=============================================================================
