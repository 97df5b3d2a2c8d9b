------------------------------ MODULE ITMStore ------------------------------
(***************************************************************************)
(* The result files as a store.  A write of a file replaces whatever was   *)
(* there, creates the folder if it is missing and leaves every other file  *)
(* alone.  TLC enumerates all histories of writes; the driver replays them *)
(* into the real writers and reads everything back after each step.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.ITM_LEN)
Folders == {"here", "deep"}          \* existing when the run starts, missing
Names   == {"a", "b"}
Sizes   == {"one", "short", "long"}  \* number of records
Fields  == {"F", "G"}                \* two different sets of fields
Paths   == Folders \X Names

VARIABLES disk, h
vars == <<disk, h>>
Empty == "absent"
Init == disk = [p \in Paths |-> Empty] /\ h = <<>>
Write(p, s, g) ==
  /\ Len(h) < MaxLen
  /\ disk' = [disk EXCEPT ![p] = <<s, g, Len(h) + 1>>]
  /\ h' = Append(h, [dir |-> p[1], name |-> p[2], size |-> s, fields |-> g])
Next == \E p \in Paths, s \in Sizes, g \in Fields : Write(p, s, g)
Spec == Init /\ [][Next]_vars

(* A file holds exactly what the last write to it put there.               *)
LastTo(p) == LET I == {i \in DOMAIN h : <<h[i].dir, h[i].name>> = p}
             IN  IF I = {} THEN Empty
                 ELSE LET i == CHOOSE i \in I : \A j \in I : j <= i IN <<h[i].size, h[i].fields, i>>
LastWriteWins == \A p \in Paths : disk[p] = LastTo(p)
Emit == (Len(h) = MaxLen) => PrintT("CASE " \o ToJson([h |-> h]))
=============================================================================
