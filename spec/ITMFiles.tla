------------------------------ MODULE ITMFiles ------------------------------
(***************************************************************************)
(* What surrounds the model: terrain extraction from an elevation raster,  *)
(* result files on disk, and plots.                                        *)
(***************************************************************************)
EXTENDS ITMTerrain, TLC

(* --- Geodesics on WGS84 (Vincenty's inverse formula) --------------------- *)
Deg == R("0.017453292519943295")
EarthA == R("6378137")
EarthF == ROne // R("298.257223563")
EarthB == EarthA ** (ROne -- EarthF)

(* Reduced latitude: sine and cosine.                                      *)
Reduced(lat) ==
  LET p == lat ** Deg
      s == (ROne -- EarthF) ** RSin(p)
      c == RCos(p)
      n == RSqrt(RSq(s) ++ RSq(c))
  IN  <<s // n, c // n>>

VincentyStep(lam, L, u1, u2) ==
  LET sl == RSin(lam)
      cl == RCos(lam)
      ss == RSqrt(RSq(u2[2] ** sl) ++ RSq((u1[2] ** u2[1]) -- ((u1[1] ** u2[2]) ** cl)))
      cs == (u1[1] ** u2[1]) ++ ((u1[2] ** u2[2]) ** cl)
      sg == RAtan2(ss, cs)
      sa == IF ss = RZero THEN RZero ELSE ((u1[2] ** u2[2]) ** sl) // ss
      ca2 == ROne -- RSq(sa)
      c2m == IF ca2 = RZero THEN RZero ELSE cs -- (((RTwo ** u1[1]) ** u2[1]) // ca2)
      C == ((EarthF // RI(16)) ** ca2) ** (RI(4) ++ (EarthF ** (RI(4) -- (RI(3) ** ca2))))
      nl == L ++ ((((ROne -- C) ** EarthF) ** sa) **
                  (sg ++ ((C ** ss) ** (c2m ++ ((C ** cs) ** ((RTwo ** RSq(c2m)) -- ROne))))))
  IN  [lam |-> nl, ss |-> ss, cs |-> cs, sg |-> sg, ca2 |-> ca2, c2m |-> c2m]

Geodesic(lon1, lat1, lon2, lat2) ==
  IF lon1 = lon2 /\ lat1 = lat2 THEN RZero
  ELSE
  LET L  == (lon2 -- lon1) ** Deg
      u1 == Reduced(lat1)
      u2 == Reduced(lat2)
      v  == FoldLeft(LAMBDA acc, i : VincentyStep(acc.lam, L, u1, u2), [lam |-> L], <<1, 2, 3, 4, 5, 6>>)
      k2 == (v.ca2 ** (RSq(EarthA) -- RSq(EarthB))) // RSq(EarthB)
      A  == ROne ++ ((k2 // RI(16384)) ** (RI(4096) ++ (k2 ** (RI(-768) ++ (k2 ** (RI(320) -- (RI(175) ** k2)))))))
      B  == (k2 // RI(1024)) ** (RI(256) ++ (k2 ** (RI(-128) ++ (k2 ** (RI(74) -- (RI(47) ** k2))))))
      ds == (B ** v.ss) ** (v.c2m ++ ((B // RI(4)) **
              ((v.cs ** ((RTwo ** RSq(v.c2m)) -- ROne))
               -- (((B // RI(6)) ** v.c2m) ** (((RI(4) ** RSq(v.ss)) -- RI(3))
                                              ** ((RI(4) ** RSq(v.c2m)) -- RI(3)))))))
  IN  (EarthB ** A) ** (v.sg -- ds)

Verdict(b) == IF b THEN "ok" ELSE "fail"
IsInt(x) == RFinite(x) /\ x = RI(RFloor(x))
Half == R("0.500001")

(* --- Number of samples ---------------------------------------------------- *)
CountOk(n, d) ==
  /\ IsInt(n) /\ RI(2) \preceq n /\ n \preceq RI(600)
  /\ RAbs(n -- NumSamplesReal(d)) \preceq Half

SamplesClause(f, a, o) ==
  CASE f = "count" -> Verdict(/\ Len(o.n) = Len(a.d)
                              /\ \A i \in DOMAIN a.d : CountOk(o.n[i], a.d[i]))
    [] f = "mono" -> Verdict(/\ Len(o.n) = Len(a.d)
                             /\ \A i \in 1..(Len(a.d) - 1) :
                                  a.d[i] \preceq a.d[i + 1] => o.n[i] \preceq o.n[i + 1])

(* --- Elevation raster ------------------------------------------------------ *)
(* a.x0, a.y0: north-west corner; a.dx, a.dy: cell size (positive);        *)
(* a.z: rows from north to south.  Elevation between cell centres is       *)
(* bilinear.                                                               *)
CellX(a, j) == a.x0 ++ ((RI(j) -- R("0.5")) ** a.dx)       \* 1-based centre
CellY(a, i) == a.y0 -- ((RI(i) -- R("0.5")) ** a.dy)
ElevationAt(a, x, y) ==
  LET cx == ((x -- a.x0) // a.dx) -- R("0.5")
      cy == ((a.y0 -- y) // a.dy) -- R("0.5")
      J(k) == IF k < 0 THEN 0 ELSE IF k > Len(a.z[1]) - 2 THEN Len(a.z[1]) - 2 ELSE k
      I(k) == IF k < 0 THEN 0 ELSE IF k > Len(a.z) - 2 THEN Len(a.z) - 2 ELSE k
      j  == J(RFloor(cx))
      i  == I(RFloor(cy))
      u  == cx -- RI(j)
      v  == cy -- RI(i)
      top == (a.z[i + 1][j + 1] ** (ROne -- u)) ++ (a.z[i + 1][j + 2] ** u)
      bot == (a.z[i + 2][j + 1] ** (ROne -- u)) ++ (a.z[i + 2][j + 2] ** u)
  IN  (top ** (ROne -- v)) ++ (bot ** v)

ProfileClause(f, a, o) ==
  LET n == Len(o.z)
      T(i) == IF n = 1 THEN RZero ELSE RI(i - 1) // RI(n - 1)
      X(i) == a.tx[1] ++ ((a.rx[1] -- a.tx[1]) ** T(i))
      Y(i) == a.tx[2] ++ ((a.rx[2] -- a.tx[2]) ** T(i))
      d == Geodesic(a.tx[1], a.tx[2], a.rx[1], a.rx[2])
  IN  CASE f = "count" -> Verdict(CountOk(RI(n), d))
        [] f = "dist" -> Verdict(Len(o.dist) = 1 /\ RClose(o.dist[1], d // RI(1000), R("1e-6"), R("1e-7")))
        [] f = "spacing" -> Verdict(/\ Len(o.px) = n /\ Len(o.py) = n
                                    /\ \A i \in 1..n : /\ RClose(o.px[i], X(i), R("1e-9"), RZero)
                                                       /\ RClose(o.py[i], Y(i), R("1e-9"), RZero))
        [] f = "elev" -> Verdict(\A i \in 1..n : RClose(o.z[i], ElevationAt(a, X(i), Y(i)), R("1e-3"), R("1e-6")))
        [] f = "points" -> Verdict(/\ Len(o.pz) = n
                                   /\ \A i \in 1..n : RClose(o.pz[i], o.z[i], R("1e-9"), R("1e-9")))

(* --- Area irregularity ------------------------------------------------------ *)
RangeOk(v, valid) == IsInt(v) /\ RAbs(v -- Interdecile(valid)) \preceq Half
RangeClause(a, o) ==
  LET keep == SelectSeq([i \in DOMAIN a.x |-> <<a.x[i], a.m[i]>>], LAMBDA t : t[2] = 0)
  IN  Verdict(RangeOk(o.v[1], [i \in DOMAIN keep |-> keep[i][1]]))

BufferClause(f, a, o) ==
  LET n == Len(o.x)
      C == RCos(a.lat ** Deg)
      Octant(i) == LET dx == (o.x[i] -- a.lon) ** C
                       dy == o.y[i] -- a.lat
                   IN  <<RZero \preceq dx, RZero \preceq dy, RAbs(dx) \preceq RAbs(dy)>>
  IN  CASE f = "radius" -> Verdict(/\ n = Len(o.y) /\ n > 8
                                   /\ \A i \in 1..n : RClose(Geodesic(a.lon, a.lat, o.x[i], o.y[i]), a.r,
                                                             R("0.01"), R("2e-4"))
                                   \* and hardly less between two corners of the outline
                                   /\ \A i \in 1..n :
                                        LET j == (i % n) + 1
                                        IN  RClose(Geodesic(a.lon, a.lat, R("0.5") ** (o.x[i] ++ o.x[j]), R("0.5") ** (o.y[i] ++ o.y[j])),
                                                   a.r, R("0.01"), R("0.0025")))
        [] f = "round" -> Verdict(\A q \in BOOLEAN \X BOOLEAN \X BOOLEAN :
                                     Cardinality({i \in 1..n : Octant(i) = q}) >= 3)

NoData(a, z) == z = a.nodata \/ z = RI(-9999)
TipCells(a, lon, lat, r) ==
  LET cells == { <<i, j>> \in (1..Len(a.z)) \X (1..Len(a.z[1])) :
                   /\ ~NoData(a, a.z[i][j])
                   /\ Geodesic(lon, lat, CellX(a, j), CellY(a, i)) \preceq r }
      sq == SetToSeq(cells)
  IN  [k \in DOMAIN sq |-> a.z[sq[k][1]][sq[k][2]]]
TipClause(f, a, o) ==
  LET valid == TipCells(a, a.lon, a.lat, a.r)
  IN  IF valid = <<>> THEN "skip" ELSE Verdict(RangeOk(o.v[1], valid))

(* --- Result files ------------------------------------------------------------- *)
(* The state is the disk: path -> contents last written there.             *)
EmptyDisk == [files |-> [x \in {} |-> <<>>]]
WriteFile(s, a) == [s EXCEPT !.files = (a.path :> a.data) @@ @]

(* A cell is a number ("n") or a text ("s"); a file shows text only, so the *)
(* observation gives each cell both readings.                              *)
CellOk(kind, text, n, otext, on, rt) ==
  IF kind = "n" THEN RClose(on, n, RZero, rt) ELSE otext = text
RowOk(d, i, o, rt) ==
  /\ Len(o.text[i]) = Len(d.text[i])
  /\ \A k \in DOMAIN d.text[i] :
       CellOk(d.kind[i][k], d.text[i][k], d.num[i][k], o.text[i][k], o.num[i][k], rt)
ContentOk(d, o, rt) ==
  /\ o.header = d.header
  /\ Len(o.text) = Len(d.text)
  /\ \A i \in DOMAIN d.text : RowOk(d, i, o, rt)
GeomOk(d, o) ==
  /\ Len(o.geom) = Len(d.geom)
  /\ \A i \in DOMAIN d.geom :
       /\ Len(o.geom[i]) = Len(d.geom[i])
       /\ \A k \in DOMAIN d.geom[i] : RClose(o.geom[i][k], d.geom[i][k], R("1e-12"), RZero)

DiskClause(f, op, a, o, s) ==
  CASE f = "written" -> Verdict(o.ok = "yes")
    [] f = "csv" -> Verdict(ContentOk(s.files[a.path], o, R("1e-15")))
    [] f = "shp" -> Verdict(ContentOk(s.files[a.path], o, R("1e-9")))
    [] f = "geom" -> Verdict(o.type = s.files[a.path].type /\ GeomOk(s.files[a.path], o))
    [] f = "crs" -> Verdict(o.crs = s.files[a.path].crs)
    [] f = "listing" -> Verdict({o.names[i] : i \in DOMAIN o.names} = DOMAIN s.files)

LineGeomClause(a, o) ==
  Verdict(o.type = "LineString" /\ o.feature = "Feature" /\ o.c = <<a.p[1], a.p[2], a.q[1], a.q[2]>>)

(* --- Plots ------------------------------------------------------------------ *)
Levels == {10, 50, 90}
LabelOf(c) == ToString(c) \o "% Confidence"
RowsAt(a, c) == {i \in DOMAIN a.c : a.c[i] = c}
(* Under each level's label there is one curve: a set of (x, loss) pairs.  *)
PlotClause(f, a, o) ==
  LET Curves(c) == {k \in DOMAIN o.labels : o.labels[k] = LabelOf(c)}
      Drawn(k) == {<<o.xs[k][i], o.ys[k][i]>> : i \in DOMAIN o.xs[k]}
      Want(c) == {<<a.x[i], a.loss[i]>> : i \in RowsAt(a, c)}
      Near(u, w) == u[1] = w[1] /\ RClose(u[2], w[2], R("1e-9"), R("1e-9"))
  IN  CASE f = "curves" -> Verdict(/\ Len(o.labels) = 3
                                   /\ \A c \in Levels :
                                        /\ Cardinality(Curves(c)) = 1
                                        /\ \A k \in Curves(c) :
                                             /\ \A u \in Drawn(k) : \E w \in Want(c) : Near(u, w)
                                             /\ \A w \in Want(c) : \E u \in Drawn(k) : Near(u, w))
        [] f = "order" -> Verdict(\A k \in DOMAIN o.xs : \A i \in 1..(Len(o.xs[k]) - 1) :
                                      o.xs[k][i] \preceq o.xs[k][i + 1])
        [] f = "inside" -> Verdict(\A i \in DOMAIN a.loss : o.ylim[1] \preceq a.loss[i] /\ a.loss[i] \preceq o.ylim[2])
        [] f = "across" -> Verdict(\A i \in DOMAIN o.at : o.xlim[1] \preceq o.at[i] /\ o.at[i] \preceq o.xlim[2])
        [] f = "saved" -> Verdict(o.saved = "yes")

FileClause(f, op, a, o) ==
  CASE op = "nsamples" -> SamplesClause(f, a, o)
    [] op = "profile" -> ProfileClause(f, a, o)
    [] op = "interdecile" -> RangeClause(a, o)
    [] op = "buffer" -> BufferClause(f, a, o)
    [] op = "tip" -> TipClause(f, a, o)
    [] op = "line" -> LineGeomClause(a, o)
    [] op = "plot" -> PlotClause(f, a, o)
=============================================================================
