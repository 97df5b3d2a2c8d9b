------------------------------ MODULE ITMSweep ------------------------------
(***************************************************************************)
(* Control of an area-mode session (lrprop with mdp = 1, then 0): which    *)
(* preparation ("epoch") every retained coefficient stems from, and from   *)
(* which coefficients an answer is formed.  The library derives the        *)
(* diffraction coefficients at the first question after a preparation, the *)
(* line-of-sight and the scatter coefficients only when a question needs   *)
(* them, and keeps them.                                                   *)
(*                                                                         *)
(* `done` is the history; complete histories are emitted and replayed into *)
(* the real code.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.ITM_LEN)
Where  == {"zero", "los", "near", "edge", "diff", "scat"}
NoCoef == 0

VARIABLES epoch,   \* number of preparations so far
          first,   \* mdp = 1: the next question derives the coefficients
          diff, los, scat,   \* epoch of the retained coefficients, NoCoef if marked missing
          answer,  \* what the last answer was formed from
          done
vars == <<epoch, first, diff, los, scat, answer, done>>

Init == /\ epoch = 1 /\ first = TRUE /\ diff = NoCoef /\ los = NoCoef /\ scat = NoCoef
        /\ answer = <<"none">> /\ done = <<>>

(* Preparing again: same parameters ("again") or others ("other").         *)
Prepare(how) ==
  /\ epoch' = epoch + 1
  /\ first' = TRUE
  /\ done' = Append(done, how)
  /\ UNCHANGED <<diff, los, scat, answer>>

Ask(w) ==
  LET diff1 == IF first THEN epoch ELSE diff
      los1  == IF first THEN NoCoef ELSE los
      scat1 == IF first THEN NoCoef ELSE scat
      inlos == w \in {"zero", "los", "near"}          \* short of the smooth-earth horizon
      beyond == w \in {"zero", "edge", "diff", "scat"} \* zero is answered by the diffraction line
      los2  == IF inlos /\ los1 = NoCoef THEN diff1 ELSE los1
      scat2 == IF beyond /\ scat1 = NoCoef THEN diff1 ELSE scat1
  IN  /\ diff' = diff1 /\ los' = los2 /\ scat' = scat2
      /\ first' = FALSE
      /\ answer' = IF beyond THEN <<"line", w, diff1, scat2>> ELSE <<"curve", w, diff1, los2>>
      /\ done' = Append(done, w)
      /\ UNCHANGED epoch

Next == /\ Len(done) < MaxLen
        /\ \/ \E w \in Where : Ask(w)
           \/ \E h \in {"again", "other"} : Prepare(h)
Spec == Init /\ [][Next]_vars

(* The answer is the one a fresh session with the current parameters gives. *)
Fresh(w) == IF w \in {"los", "near"} THEN <<"curve", w, epoch, epoch>> ELSE <<"line", w, epoch, epoch>>
HistoryIndependent ==
  (done # <<>> /\ done[Len(done)] \in Where) => answer = Fresh(done[Len(done)])
NeverStale == ~first => /\ diff = epoch /\ los \in {NoCoef, epoch} /\ scat \in {NoCoef, epoch}

Emit == Len(done) = MaxLen => PrintT("CASE " \o ToJson([h |-> done]))
(* The unbounded model, of which this is a refinement.                     *)
AgeOf(e) == IF e = NoCoef THEN "none" ELSE IF e = epoch THEN "now" ELSE "old"
LastQ == IF done # <<>> /\ done[Len(done)] \in Where
         THEN <<answer[2], AgeOf(answer[3]), AgeOf(answer[4])>> ELSE <<"none">>
Ever == INSTANCE ITMSweepAny WITH diff <- AgeOf(diff), los <- AgeOf(los), scat <- AgeOf(scat), last <- LastQ
Refines == Ever!Spec
=============================================================================
