---------------------------- MODULE ITMMarkerAny ----------------------------
(***************************************************************************)
(* ITMMarker for histories of every length (the same rules without the     *)
(* record of the history).  ITMMarker is checked to refine this module.    *)
(***************************************************************************)
EXTENDS Integers
VARIABLES mode, path, marker, met
vars == <<mode, path, marker, met>>
Max(a, b) == IF a < b THEN b ELSE a
Init == mode = "none" /\ path = 0 /\ marker = 0 /\ met = {}
Raise(w) == marker' = Max(marker, w) /\ met' = met \union {w}
PrepareArea(s) == mode' = "area" /\ path' = s /\ UNCHANGED <<marker, met>>
PrepareP2P(s) == mode' = "p2p" /\ path' = s /\ Raise(s)
Ask(s) == /\ mode # "none"
          /\ mode = "p2p" => s = 0
          /\ Raise(IF mode = "sweep" THEN s ELSE Max(s, path))
          /\ mode' = IF mode = "area" THEN "sweep" ELSE mode
          /\ UNCHANGED path
Quantile(s) == mode \in {"sweep", "p2p"} /\ Raise(s) /\ UNCHANGED <<mode, path>>
Reset == marker' = 0 /\ met' = {} /\ UNCHANGED <<mode, path>>
Next == \/ \E s \in 0..4 : PrepareArea(s) \/ PrepareP2P(s) \/ Ask(s) \/ Quantile(s)
        \/ Reset
Spec == Init /\ [][Next]_vars
Worst == marker = IF met = {} THEN 0 ELSE CHOOSE m \in met : \A n \in met : n <= m
(* Only a reset lowers the marker, and it lowers it to nothing.            *)
Grows == [][marker' < marker => marker' = 0 /\ met' = {}]_vars
=============================================================================
