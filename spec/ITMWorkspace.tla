---------------------------- MODULE ITMWorkspace ----------------------------
(***************************************************************************)
(* What the scripts leave in their workspace, in numbers: the examples     *)
(* they run and the files they write.  The state holds the elevation data  *)
(* in place and, for every file, the elevation data it was made from.      *)
(***************************************************************************)
EXTENDS ITMRunners, ITMFiles

CrystalPalace == <<R("-0.07491679518573545"), R("51.42413477117786")>>
Mursley       == <<R("-0.8119433954872186"), R("51.94972494521946")>>
TwoTileSite   == <<R("26.9976"), R("-3.5409")>>
TwoTileA      == <<R("26.676"), R("-3.513")>>
TwoTileB      == <<R("27.594"), R("-3.514")>>
CellRange     == RI(20000)

AreaExample(dh) == [fmhz |-> RI(20), hg |-> <<R("3.3"), R("1.3")>>, dh |-> dh, ipol |-> 0]
ExampleProfile == <<
   96,  84,  65,  46,  46,  46,  61,  41,  33,  27,  23,  19,  15,  15,  15,
   15,  15,  15,  15,  15,  15,  15,  15,  15,  17,  19,  21,  23,  25,  27,
   29,  35,  46,  41,  35,  30,  33,  35,  37,  40,  35,  30,  51,  62,  76,
   46,  46,  46,  46,  46,  46,  50,  56,  67, 106,  83,  95, 112, 137, 137,
   76, 103, 122, 122,  83,  71,  61,  64,  67,  71,  74,  77,  79,  86,  91,
   83,  76,  68,  63,  76, 107, 107, 107, 119, 127, 133, 135, 137, 142, 148,
  152, 152, 107, 137, 104,  91,  99, 120, 152, 152, 137, 168, 168, 122, 137,
  137, 170, 183, 183, 187, 194, 201, 192, 152, 152, 166, 177, 198, 156, 127,
  116, 107, 104, 101,  98,  95, 103,  91,  97, 102, 107, 107, 107, 103,  98,
   94,  91, 105, 122, 122, 122, 122, 122, 137, 137, 137, 137, 137, 137, 137,
  137, 140, 144, 147, 150, 152, 159 >>
P2PExample == [fmhz |-> R("41.5"), d |-> R("77.8"), hg |-> <<R("143.9"), R("8.5")>>, ipol |-> 0,
               z |-> [i \in DOMAIN ExampleProfile |-> RI(ExampleProfile[i])]]

----------------------------------------------------------------------------
(* State and transitions.                                                  *)
EmptyWorkspace(a) == [ast |-> a.ast, vrt |-> a.vrt, files |-> [x \in {} |-> 0]]
ReplaceData(s, a) == [s EXCEPT !.ast = a.ast, !.vrt = a.vrt]
Has(s, f) == f \in DOMAIN s.files
RunScript(s, name) ==
  LET Put(f, v) == f :> v
      new == CASE name = "area"        -> Put("area_results.csv", s.ast)
               [] name = "area_2tiles" -> Put("area_results_2tiles.csv", s.vrt)
               [] name = "p2p"         -> Put("p2p_results.csv", 0) @@ Put("points.shp", s.ast)
                                          @@ Put("transmitter.shp", 0) @@ Put("receiver.shp", 0)
               [] name = "p2p_2tiles"  -> Put("p2p_results_2tiles.csv", 0) @@ Put("p2p_2tiles.shp", s.vrt)
               [] name = "pimter"      -> [x \in {} |-> 0]
               [] name = "vis"         ->
                    (IF Has(s, "area_results.csv") THEN Put("area_results.png", 0) ELSE [x \in {} |-> 0])
                    @@ (IF Has(s, "p2p_results.csv") THEN Put("p2p_results.png", 0) ELSE [x \in {} |-> 0])
  IN  [s EXCEPT !.files = new @@ @]

----------------------------------------------------------------------------
(* Judging.                                                                *)
(* Whole metres the irregularity may be reported as (a tie rounds either way). *)
Irregularities(dem, site) ==
  LET valid == TipCells(dem, site[1], site[2], CellRange)
      v == Interdecile(valid)
  IN  { k \in {RFloor(v) - 1, RFloor(v), RFloor(v) + 1} : RangeOk(RI(k), valid) }

Columns(rows, f) == [i \in DOMAIN rows |-> rows[i][f]]
SameCol(exp, got) == Len(exp) = Len(got) /\ \A i \in DOMAIN exp : RClose(exp[i], got[i], R("2e-5"), R("1e-6"))
IntCol(rows, f) == [i \in DOMAIN rows |-> RI(rows[i][f])]

AreaTableOk(dem, site, o) ==
  /\ o.header = <<"distance_km", "confidence_level_%", "propagation_loss_dB">>
  /\ \E k \in Irregularities(dem, site) :
       LET rows == AreaRows(AreaExample(RI(k)))
       IN  /\ o.cols[1] = IntCol(rows, "d") /\ o.cols[2] = IntCol(rows, "c")
           /\ SameCol(Columns(rows, "loss"), o.cols[3])
P2PTableOk(o) ==
  LET rows == P2PRowsOf(P2PSession(P2PExample, NoSlack))
  IN  /\ o.header = <<"distance_km", "reliability_level_%", "confidence_level_%", "propagation_loss_dB">>
      /\ o.cols[2] = IntCol(rows, "r") /\ o.cols[3] = IntCol(rows, "c")
      /\ \A i \in DOMAIN rows : o.cols[1][i] = P2PExample.d
      /\ SameCol(Columns(rows, "loss"), o.cols[4])
PointsOk(dem, p, q, o) ==
  LET a == [tx |-> p, rx |-> q] @@ dem
      d == Geodesic(p[1], p[2], q[1], q[2])
  IN  /\ o.header = <<"elevation">>
      /\ CountOk(RI(Len(o.z)), d)
      /\ ProfileClause("spacing", a, o) = "ok" /\ ProfileClause("elev", a, o) = "ok"
      /\ o.crs = "EPSG:4326"
SiteOk(p, id, o) ==
  /\ o.header = <<"id">> /\ o.ids = <<id>> /\ Len(o.px) = 1 /\ Len(o.py) = 1
  /\ RClose(o.px[1], p[1], R("1e-12"), RZero) /\ RClose(o.py[1], p[2], R("1e-12"), RZero)
  /\ o.crs = "EPSG:4326"

FileOk(f, s, o) ==
  CASE f = "area_results.csv" -> AreaTableOk(s.files[f], CrystalPalace, o)
    [] f = "area_results_2tiles.csv" -> AreaTableOk(s.files[f], TwoTileSite, o)
    [] f \in {"p2p_results.csv", "p2p_results_2tiles.csv"} -> P2PTableOk(o)
    [] f = "points.shp" -> PointsOk(s.files[f], CrystalPalace, Mursley, o)
    [] f = "p2p_2tiles.shp" -> PointsOk(s.files[f], TwoTileA, TwoTileB, o)
    [] f = "transmitter.shp" -> SiteOk(CrystalPalace, "Crystal Palace radio transmitter", o)
    [] f = "receiver.shp" -> SiteOk(Mursley, "Mursley", o)

Campaign == << "PIMTER_Tx_Rx1_dem_height.csv", "PIMTER_2019_Rx_Tx0_dem_height.csv",
               "PIMTER_2019_Rx_Tx2_dem_height.csv", "PIMTER_2019_Rx_Tx3_dem_height.csv",
               "PIMTER_2019_Rx_Tx4_dem_height.csv", "PIMTER_2019_Rx_Tx5_dem_height.csv" >>

WorkspaceClause(f, op, a, o, s1) ==
  CASE f = "done"    -> Verdict(o.ok = "yes")
    [] f = "listing" -> Verdict({o.names[i] : i \in DOMAIN o.names} = DOMAIN s1.files)
    [] f = "inputs"  -> Verdict(o.same = "yes")
    [] f = "campaign" -> Verdict({o.said[i] : i \in DOMAIN o.said} = {Campaign[i] : i \in DOMAIN Campaign})
    [] f = "file"    -> IF ~Has(s1, a.file) THEN "skip" ELSE Verdict(FileOk(a.file, s1, o))
=============================================================================
