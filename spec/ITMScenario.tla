----------------------------- MODULE ITMScenario -----------------------------
(***************************************************************************)
(* Classes of situations the conformance drivers must visit.  TLC          *)
(* enumerates every combination and emits it; the driver picks concrete    *)
(* numbers inside the classes (seeded) and runs the real code.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Freq   == {"limit", "vhf", "uhf", "shf", "ehf"}
Height == {"tiny", "low", "mid", "high", "vhigh"}
Rough  == {"zero", "smooth", "rolling", "hilly", "rugged"}
Pol    == {0, 1}
Site   == {0, 1, 2}
Shape  == {"flat", "ramp", "noise", "walk", "ridge", "tworidges", "nearridge", "farridge", "edgeridge",
           "valley", "cliff", "sea", "island", "steps", "hump", "spike", "slope"}
Points == {"two", "three", "few", "some", "many"}
Mode   == {0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33}
Clime  == 1..7

Area == [kind : {"area"}, f : Freq, h1 : Height, h2 : Height, dh : Rough, pol : Pol]
AreaS == [kind : {"areas"}, f : Freq, h1 : Height, h2 : {"low", "mid", "high"}, dh : Rough,
          k1 : Site, k2 : Site]
Siting == [kind : {"siting"}, k1 : Site, k2 : Site, h1 : Height, h2 : Height, dh : Rough]
Path == [kind : {"path"}, shape : Shape, np : Points, f : {"vhf", "uhf", "shf"},
         h1 : {"low", "mid", "high"}, h2 : {"tiny", "low", "mid"}]
PathS == [kind : {"paths"}, shape : Shape, np : Points, h1 : {"low", "mid", "high"}, h2 : {"low", "mid"}]
Profile == [kind : {"profile"}, shape : Shape, np : Points]
Vary == [kind : {"vary"}, klim : Clime, mdvar : Mode, f : Freq, reg : {"near", "mid", "far", "vfar"}]
VaryS == [kind : {"varys"}, klim : Clime, mdvar : Mode, reg : {"near", "mid", "far"}]

(* The warning marker: which limit, which side of it, which terminal.       *)
Limit == {"wn1lo", "wn1hi", "wn4lo", "wn4hi", "h1lo", "h1hi", "h4lo", "h4hi", "enslo", "enshi",
          "gmelo", "gmehi", "zgnd", "the", "dllo", "dlhi", "d1lo", "d1hi", "d4lo", "d4hi", "dmin",
          "none"}
Warn == [kind : {"warn"}, lim : Limit, side : {"in", "at", "out"}, t : {0, 1},
         lim2 : {"none", "wn1hi", "h1lo", "the", "dmin", "h4hi", "d1hi"}, mode : {"area", "p2p"}]

Sets == [area |-> Area, areas |-> AreaS, siting |-> Siting, path |-> Path, paths |-> PathS,
         profile |-> Profile, vary |-> Vary, varys |-> VaryS, warn |-> Warn]

VARIABLE s
Init == s \in Sets[IOEnv.ITM_SCEN]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT("CASE " \o ToJson(s))
=============================================================================
