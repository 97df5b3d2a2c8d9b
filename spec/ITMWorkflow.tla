----------------------------- MODULE ITMWorkflow -----------------------------
(***************************************************************************)
(* The scripts run in one workspace, one after another, in any order.      *)
(* The elevation data may be replaced between runs.  Each script overwrites *)
(* its own files from the elevation data now present and leaves all others  *)
(* alone; the plots are drawn from the tables now present.  TLC enumerates  *)
(* all histories; the driver replays them with the real scripts.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.ITM_LEN)
Scripts == {"area", "area_2tiles", "p2p", "p2p_2tiles", "pimter", "vis"}
Owns(s) == CASE s = "area"        -> {"area_results.csv"}
             [] s = "area_2tiles" -> {"area_results_2tiles.csv"}
             [] s = "p2p"         -> {"p2p_results.csv", "transmitter.shp", "receiver.shp", "points.shp"}
             [] s = "p2p_2tiles"  -> {"p2p_results_2tiles.csv", "p2p_2tiles.shp"}
             [] s = "pimter"      -> {}
Plots == [ f \in {"area_results.png", "p2p_results.png"} |->
             IF f = "area_results.png" THEN "area_results.csv" ELSE "p2p_results.csv" ]
Files == UNION {Owns(s) : s \in Scripts \ {"vis"}} \cup DOMAIN Plots

VARIABLES dem, disk, h
vars == <<dem, disk, h>>
Absent == 0
Init == dem = 1 /\ disk = [f \in Files |-> Absent] /\ h = <<>>

Replace == /\ h # <<>> /\ Len(h) < MaxLen - 1 /\ h[Len(h)] # "dem"
           /\ dem' = dem + 1 /\ h' = Append(h, "dem") /\ UNCHANGED disk
Run(s) ==
  /\ Len(h) < MaxLen
  /\ disk' = [f \in Files |->
       IF s = "vis" THEN IF f \in DOMAIN Plots /\ disk[Plots[f]] # Absent THEN disk[Plots[f]] ELSE disk[f]
       ELSE IF f \in Owns(s) THEN dem ELSE disk[f]]
  /\ h' = Append(h, s) /\ UNCHANGED dem
Next == Replace \/ \E s \in Scripts : Run(s)
Spec == Init /\ [][Next]_vars

(* The elevation data in place at step i of the history.                   *)
DemAt(i) == 1 + Cardinality({j \in 1..i : h[j] = "dem"})
LastRun(s, upto) == LET I == {i \in 1..upto : h[i] = s}
                    IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
(* A table or shape shows the data of the last run of its own script,      *)
(* whatever else ran before or after.                                      *)
OwnLastRun ==
  \A s \in Scripts \ {"vis"} : \A f \in Owns(s) :
     disk[f] = IF LastRun(s, Len(h)) = 0 THEN Absent ELSE DemAt(LastRun(s, Len(h)))
(* A plot shows the table as it was at the last drawing that found it.     *)
PlotsFollow ==
  \A f \in DOMAIN Plots :
     LET v == LastRun("vis", Len(h))
         s == CHOOSE s \in Scripts \ {"vis"} : Plots[f] \in Owns(s)
     IN  disk[f] = IF v = 0 \/ LastRun(s, v) = 0 THEN Absent ELSE DemAt(LastRun(s, v))
Emit == (Len(h) = MaxLen) => PrintT("CASE " \o ToJson([h |-> h]))
=============================================================================
