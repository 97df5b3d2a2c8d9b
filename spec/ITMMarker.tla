----------------------------- MODULE ITMMarker -----------------------------
(***************************************************************************)
(* Life of the warning marker in one session.  Only the caller lowers it;  *)
(* preparing, asking and quantiles raise it to the severity of what they   *)
(* meet.  A path's own conditions are met when its coefficients are        *)
(* derived: at the first question after an area is prepared, at once (and  *)
(* again whenever asked) for a point-to-point path.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.ITM_LEN)

VARIABLES mode,     \* "none", "area" (prepared), "sweep" (area in use), "p2p"
          path,     \* severity of the prepared path's own conditions
          marker,   \* what the session reports
          met,      \* severities met since the caller reset it
          done      \* the history
vars == <<mode, path, marker, met, done>>

Init == mode = "none" /\ path = 0 /\ marker = 0 /\ met = {} /\ done = <<>>

Max(a, b) == IF a < b THEN b ELSE a
Raise(w) == marker' = Max(marker, w) /\ met' = met \union {w}
Say(w) == done' = Append(done, w)
Sev(n, s) == n \o ToString(s)

PrepareArea(s) ==
  /\ mode' = "area" /\ path' = s /\ Say(Sev("area", s)) /\ UNCHANGED <<marker, met>>
PrepareP2P(s) ==
  /\ mode' = "p2p" /\ path' = s /\ Raise(s) /\ Say(Sev("p2p", s))
Ask(s) ==
  /\ mode # "none"
  /\ mode = "p2p" => s = 0               \* the length of the path is what it is
  /\ Raise(IF mode = "sweep" THEN s ELSE Max(s, path))
  /\ mode' = IF mode = "area" THEN "sweep" ELSE mode
  /\ Say(Sev("ask", s)) /\ UNCHANGED path
Quantile(s) ==
  /\ mode \in {"sweep", "p2p"} /\ Raise(s) /\ Say(Sev("quant", s)) /\ UNCHANGED <<mode, path>>
Reset ==
  /\ marker' = 0 /\ met' = {} /\ Say("reset") /\ UNCHANGED <<mode, path>>

Next ==
  /\ Len(done) < MaxLen
  /\ \/ \E s \in {0, 1, 3, 4} : PrepareArea(s)
     \/ \E s \in {0, 1, 3, 4} : PrepareP2P(s)
     \/ \E s \in {0, 1, 4} : Ask(s)
     \/ \E s \in {0, 1, 2} : Quantile(s)
     \/ Reset
Spec == Init /\ [][Next]_vars

Worst == marker = IF met = {} THEN 0 ELSE CHOOSE m \in met : \A n \in met : n <= m
Grows == [][marker' < marker => done' = Append(done, "reset")]_vars

Last == done[Len(done)]
Emit == (Len(done) = MaxLen /\ done[1] # "reset" /\ Last # "reset" /\ mode # "area")
          => PrintT("CASE " \o ToJson([h |-> done, m |-> marker]))
(* The unbounded model, of which this is a refinement.                     *)
Ever == INSTANCE ITMMarkerAny
Refines == Ever!Spec
=============================================================================
