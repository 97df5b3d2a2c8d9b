------------------------------ MODULE ITMTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded executions with the specification.              *)
(*                                                                         *)
(* A case is a sequence of events recorded from the real code; an event    *)
(* has an operation `op`, its arguments `a`, the observations `o` (each a  *)
(* sequence of numbers, NaN where the code raised or returned none) and    *)
(* `chk`, the clauses to be judged.  Each event is one step: the session   *)
(* states take the corresponding action of ITMSession and every clause is  *)
(* judged against the successor state.  The verdict is total: a clause is  *)
(* ok, fail, or skip when the specification assigns no finite value.       *)
(***************************************************************************)
EXTENDS ITMWorkspace, Json, TLC, IOUtils

Cases == JsonDeserialize(IOEnv.ITM_TRACE)

VARIABLES c,    \* the case
          l,    \* events consumed
          st,   \* session name -> session state
          n     \* <<clauses ok, clauses skipped, clauses failed>>
vars == <<c, l, st, n>>

----------------------------------------------------------------------------
(* Judging                                                                 *)
Match(exp, got, at, rt) ==
  IF \E i \in DOMAIN exp : ~RFinite(exp[i]) THEN "skip"
  ELSE IF /\ Len(exp) = Len(got)
          /\ \A i \in DOMAIN exp : RClose(exp[i], got[i], at, rt) THEN "ok" ELSE "fail"
Holds(b) == IF b THEN "ok" ELSE "fail"
When(p, b) == IF ~p THEN "skip" ELSE Holds(b)
AnyInf(s) == \E i \in DOMAIN s : ~RFinite(s[i])

dBa == R("2e-5")          \* tolerance of attenuations (dB), absolute ...
dBr == R("1e-6")          \* ... and relative
dBl == R("1e-4")          \* of fitted lines and curves, which extrapolate
Ga  == R("1e-7")          \* tolerance of geometry, absolute and relative
Gr  == R("1e-6")
TolA(f) == CASE f \in {"aref", "val", "fresh", "loss"} -> dBa
             [] f \in {"the", "tha"} -> R("1e-9")
             [] f = "gme" -> R("1e-18")
             [] OTHER -> Ga
TolR(f) == CASE f \in {"aref", "val", "fresh", "loss"} -> dBr [] OTHER -> Gr

Line(b, m, x) == b ++ (m ** x)
Curve(o, x) == (o.ael[1] ++ (o.ak1[1] ** x)) ++ (o.ak2[1] ** RLn(x))
LosFractions == <<R("0.02"), R("0.1"), R("0.25"), R("0.5"), R("0.75"), ROne>>

(* On either side of the smooth-earth horizon, beyond rounding: a path may  *)
(* end exactly there (heights are raised until the horizons meet).         *)
InLos(s1) == RZero \prec s1.p.dist /\ s1.p.dist \prec (s1.k.c.dlsa ** R("0.99999999"))
PastLos(s1) == ~(RZero \prec s1.p.dist) \/ (s1.k.c.dlsa ** R("1.00000001")) \prec s1.p.dist

(* What a question in either mode shows.                                   *)
PropField(f, s1) ==
  CASE f = "aref" -> <<s1.aref>>   [] f = "dist" -> <<s1.p.dist>>
    [] f = "dlsa" -> <<s1.k.c.dlsa>> [] f = "dla" -> <<s1.k.c.dla>>
    [] f = "tha"  -> <<s1.k.c.tha>>  [] f = "dls" -> s1.k.c.dls
    [] f = "dx"   -> <<s1.k.scat.dx>>
    [] f = "he" -> s1.p.he [] f = "dl" -> s1.p.dl [] f = "the" -> s1.p.the
    [] f = "dh" -> <<s1.p.dh>>     [] f = "hg" -> s1.p.hg
    [] f = "wn" -> <<s1.p.wn>>     [] f = "ens" -> <<s1.p.ens>>
    [] f = "gme" -> <<s1.p.gme>>   [] f = "zgnd" -> <<s1.p.zgnd.re, s1.p.zgnd.im>>
    [] f = "mdp" -> <<RI(s1.p.mdp)>> [] f = "lvar" -> <<RI(s1.lvar)>>
    [] f = "klim" -> <<RI(s1.klim)>> [] f = "mdvar" -> <<RI(s1.mdvar)>>

(* Coefficients a clause looks at; a session need not expose them (empty). *)
Inner(f) ==
  CASE f = "diffline" -> {"aed", "emd"}        [] f = "scatline" -> {"aes", "ems"}
    [] f = "loscurve" -> {"ael", "ak1", "ak2"} [] f = "losln" -> {"ak2"}
    [] f = "scatdx" -> {"dx"}                  [] f = "dxfar" -> {"dlsa", "dx"}
    [] f \in {"dls", "dlsa", "dla", "tha", "dx"} -> {f}
    [] OTHER -> {}

PropClause(f, o, s1) ==
  IF \E g \in Inner(f) : o[g] = <<>> THEN "skip" ELSE
  CASE f = "kwx" -> Holds(\E k \in s1.kw : o.kwx[1] = RI(k))
    [] f = "nonneg" -> When(RFinite(s1.aref), RZero \preceq o.aref[1])
    [] f = "fresh" -> IF ~RFinite(s1.aref) THEN "skip" ELSE Match(o.fresh, o.aref, R("1e-9"), R("1e-9"))
    [] f = "diffline" ->
         LET xs == <<s1.k.c.dlsa, RI(300000), RI(1000000)>>
         IN  Match([i \in 1..3 |-> Line(s1.k.line.aed, s1.k.line.emd, xs[i])],
                   [i \in 1..3 |-> Line(o.aed[1], o.emd[1], xs[i])], dBl, R("1e-5"))
    [] f = "scatline" ->
         LET xs == <<s1.k.scat.dx, RI(1000000)>>
         IN  IF ~PastLos(s1) THEN "skip"
             ELSE Match([i \in 1..2 |-> Line(s1.k.scat.aes, s1.k.scat.ems, xs[i])],
                        [i \in 1..2 |-> Line(o.aes[1], o.ems[1], xs[i])], dBl, R("1e-5"))
    [] f = "scatdx" ->
         IF ~PastLos(s1) THEN "skip" ELSE Match(<<s1.k.scat.dx>>, o.dx, R("0.1"), R("1e-5"))
    [] f = "loscurve" ->
         IF ~InLos(s1) THEN "skip"
         ELSE Match([i \in 1..6 |-> Curve([ael |-> <<s1.k.los.ael>>, ak1 |-> <<s1.k.los.ak1>>,
                                           ak2 |-> <<s1.k.los.ak2>>], LosFractions[i] ** s1.k.c.dlsa)],
                    [i \in 1..6 |-> Curve(o, LosFractions[i] ** s1.k.c.dlsa)], dBl, R("1e-6"))
    [] f = "losln" ->
         IF ~InLos(s1) \/ ~RFinite(s1.k.los.ak2) THEN "skip"
         ELSE Holds(RZero \preceq o.ak2[1])
    [] f = "dxfar" -> IF ~PastLos(s1) THEN "skip"
                      ELSE When(RFinite(s1.k.scat.dx), o.dlsa[1] \preceq Slack(o.dx[1], 1))
    [] f = "heup" -> When(~AnyInf(s1.p.he), \A j \in 1..2 : Slack(s1.p.hg[j], -1) \preceq o.he[j])
    [] f = "others" ->       \* a question leaves the prepared path alone
         LET fs == {"he", "dl", "the", "dh", "hg", "wn", "ens", "gme", "zgnd"}
             vs == { Match(PropField(g, s1), o[g], Ga, Gr) : g \in fs }
         IN  IF "fail" \in vs THEN "fail" ELSE IF "skip" \in vs THEN "skip" ELSE "ok"
    [] OTHER -> Match(PropField(f, s1), o[f], TolA(f), TolR(f))

PropExpected(f, s1) ==
  CASE f = "kwx" -> s1.kw
    [] f \in {"nonneg", "fresh"} -> <<RStr(s1.aref)>>
    [] f \in {"diffline"} -> <<RStr(s1.k.line.aed), RStr(s1.k.line.emd)>>
    [] f \in {"scatline", "scatdx", "dxfar"} ->
         <<RStr(s1.k.scat.aes), RStr(s1.k.scat.ems), RStr(s1.k.scat.dx)>>
    [] f \in {"loscurve", "losln"} -> <<RStr(s1.k.los.ael), RStr(s1.k.los.ak1), RStr(s1.k.los.ak2)>>
    [] f \in {"others", "heup"} -> "the path as prepared"
    [] OTHER -> [i \in DOMAIN PropField(f, s1) |-> RStr(PropField(f, s1)[i])]

----------------------------------------------------------------------------
(* Horizons, fits and irregularity of a bare profile.                      *)
HorizonClause(f, a, o) ==
  LET va == Views(a.z, a.xi, a.dist, a.hg, a.gme, TRUE)
      vb == Views(a.z, a.xi, a.dist, a.hg, a.gme, FALSE)
      np == Len(va)
      Top(vs) == FoldLeft(LAMBDA m, v : RMax(m, v.ang), vs[np].ang, vs)
      tol == R("1e-10")
      ta == Top(va)
      tb == Top(vb)
      Attained(vs, top, dl) == \E i \in 1..np : /\ (top -- tol) \preceq vs[i].ang
                                                /\ RClose(vs[i].s, dl, R("1e-6"), R("1e-9"))
      (* nothing comes within rounding of the direct ray, or something is above it *)
      Clear(vs) == \A i \in 1..(np - 1) : vs[i].ang \preceq (vs[np].ang -- tol)
      Blocked(vs, top) == (vs[np].ang ++ tol) \prec top
      Full(dl) == RClose(dl, a.dist, R("1e-6"), R("1e-9"))
  IN  CASE f = "angle" -> Match(<<ta, tb>>, o.the, R("1e-11"), R("1e-9"))
        [] f = "point" -> Holds(Attained(va, ta, o.dl[1]) /\ Attained(vb, tb, o.dl[2]))
        [] f = "clear" -> Holds(/\ Clear(va) => Full(o.dl[1])
                                /\ Clear(vb) => Full(o.dl[2])
                                /\ Blocked(va, ta) => ~Full(o.dl[1])
                                /\ Blocked(vb, tb) => ~Full(o.dl[2]))

ZTol(z) == R("1e-9") ** FoldLeft(LAMBDA m, v : RMax(m, RAbs(v)), ROne, z)

(* Whole intervals of a power-of-two length: dividing by it is exact however *)
(* it is done, so nothing is left to rounding.                             *)
ExactGrid(xi) == \E k \in 0..12 : xi = RI(2^k)

LineClause(f, a, o) ==
  LET np == Len(a.z) - 1
      es == { <<e1, e2>> : e1 \in Ticks(~ExactGrid(a.xi) /\ NearInt(a.x1 // a.xi)),
                             e2 \in Ticks(~ExactGrid(a.xi) /\ NearInt(a.x2 // a.xi)) }
      Try(e) == LET r == Zlsq1(a.z, a.xi, Slack(a.x1, e[1]), Slack(a.x2, e[2]))
                IN  Match(<<r.z0, r.zn>>, o.line, ZTol(a.z) ** RI(10 * (np + 1)), Gr)
  IN  CASE f = "line" -> IF Try(<<0, 0>>) = "ok" THEN "ok"
                         ELSE Holds(\E e \in es : Try(e) = "ok")
        [] f = "straight" -> Match(<<a.z[1], a.z[np + 1]>>, o.line, ZTol(a.z) ** RI(10 * (np + 1)), RZero)

DhClause(f, a, o) ==
  LET span == (a.x2 -- a.x1) // a.xi
      es == Ticks(/\ ~ExactGrid(a.xi)
                  /\ NearInt((span ++ RI(8)) // RI(10)) \/ RClose(span, RTwo, R("1e-6"), RZero))
      tol == ZTol(a.z) ** RI(100)
  IN  CASE f = "dh" -> IF Match(<<Dlthx(a.z, a.xi, a.x1, a.x2, 0)>>, o.dh, tol, Gr) = "ok" THEN "ok"
                       ELSE Holds(\E e \in es : Match(<<Dlthx(a.z, a.xi, a.x1, a.x2, e)>>, o.dh, tol, Gr) = "ok")
        [] f = "nonneg" -> Holds(RZero \preceq o.dh[1])
        [] f = "zero" -> Holds(RClose(RZero, o.dh[1], tol, RZero))

----------------------------------------------------------------------------
(* Normal deviates and order statistics.                                   *)
NormClause(f, a, o) ==
  CASE f = "acc" -> Match(<<RNormQ(a.z)>>, o.q, R("1.0e-7"), RZero)
    [] f = "unit" -> Holds(RZero \preceq o.q[1] /\ o.q[1] \preceq ROne)
DevTol == R("5.5e-4")
InverseClause(f, a, o) ==
  LET q == a.q
      C(p) == RMin(RMax(p, R("0.000001")), R("0.999999"))
  IN  CASE f = "acc" -> Holds(/\ Len(o.x) = Len(q)
                              /\ \A i \in DOMAIN q :
                                   /\ RNormQ(o.x[i] ++ DevTol) \preceq C(q[i])
                                   /\ C(q[i]) \preceq RNormQ(o.x[i] -- DevTol))
        [] f = "mono" -> Holds(/\ Len(o.x) = Len(q)
                               /\ \A i \in DOMAIN q : \A j \in DOMAIN q :
                                    q[i] \preceq q[j] => (o.x[j] -- R("1e-9")) \preceq o.x[i])
        [] f = "antisym" -> Holds(/\ Len(o.y) = Len(q)
                                  /\ \A i \in DOMAIN q : RClose(o.x[i] ++ o.y[i], RZero, R("1.01e-4"), RZero))
        [] f = "elementwise" -> Match(o.each, o.x, R("1e-12"), RZero)

QtileClause(f, a, o) ==
  CASE f = "rank" -> Holds(IsQtile(o.v[1], a.z, a.ir))
    [] f = "arg" -> Holds(o.after = a.z)

----------------------------------------------------------------------------
(* Relations between earlier events of the same case.                      *)
Obs(i) == Cases[c].ev[i].o
Arg(i) == Cases[c].ev[i].a
Rev(s) == Reverse(s)
Ambiguous(i) ==
  LET a == Arg(i) IN Cardinality(P2PSlacks(a.z, a.xi, a.rhg, a.rgme)) > 1

RelClause(f, a) ==
  LET x == Obs(a.i)[f]
      y == Obs(a.j)[f]
      dead == AnyInf(x) /\ AnyInf(y)
  IN  IF dead THEN "skip"
      ELSE IF a.amb # 0 /\ Ambiguous(a.amb) THEN "skip"
      ELSE CASE a.kind = "same"  -> Holds(Match(x, y, a.at, a.rt) = "ok")
             [] a.kind = "swap"  -> Holds(Match(Rev(x), y, a.at, a.rt) = "ok")
             [] a.kind = "ident" -> Holds(x = y)
             [] a.kind = "notless" -> Holds((x[1] -- a.at) \preceq y[1])
             [] a.kind = "notmore" -> Holds(y[1] \preceq (x[1] ++ a.at))
             [] a.kind = "map"   -> \* y = k * x + b, elementwise
                  Holds(Match([q \in DOMAIN x |-> (a.k ** x[q]) ++ a.b[q]], y, a.at, a.rt) = "ok")

(* Three answers on one straight line: distance against attenuation.       *)
CollinearClause(a) ==
  LET d(i) == Arg(i).d
      v(i) == Obs(i).aref[1]
      m == (v(a.j) -- v(a.i)) // (d(a.j) -- d(a.i))
      allpos == RZero \prec v(a.i) /\ RZero \prec v(a.j) /\ RZero \prec v(a.k)
  IN  When(allpos, RClose(v(a.k), v(a.i) ++ (m ** (d(a.k) -- d(a.i))), R("1e-5"), R("1e-7")))

----------------------------------------------------------------------------
(* Runners.                                                                *)
Cols(rows, f) == [i \in DOMAIN rows |-> rows[i][f]]
IntCols(rows, f) == [i \in DOMAIN rows |-> RI(rows[i][f])]
AreaRunClause(f, a, o) ==
  LET rows == AreaRows(a)
  IN  CASE f = "grid" -> Holds(o.d = IntCols(rows, "d") /\ o.c = IntCols(rows, "c"))
        [] f = "loss" -> Match(Cols(rows, "loss"), o.loss, R("2e-5"), dBr)
        [] f = "twin" -> Holds(o.d2 = o.d /\ o.c2 = o.c /\ Match(o.loss, o.loss2, R("1e-9"), R("1e-9")) # "fail")

P2PRunClause(f, a, o, sl) ==
  LET s == P2PSession(a, sl)
      rows == P2PRowsOf(s)
  IN  CASE f = "levels" -> Holds(/\ o.r = IntCols(rows, "r") /\ o.c = IntCols(rows, "c")
                                 /\ \A i \in DOMAIN o.d : o.d[i] = a.d)
        [] f = "loss" -> Match(Cols(rows, "loss"), o.loss, R("2e-5"), dBr)
        [] f = "path" -> When(RFinite(s.aref), \E e \in {-1, 0, 1} : o.path = PathClass(s, P2PStep(a), e))
        [] f = "mode" -> When(RFinite(s.aref), \E e \in {-1, 0, 1} : o.mode = Dominant(s, e))
        [] f = "fs" -> Match(<<FreeSpace(s.p.wn, s.p.dist)>>, o.fs, dBa, dBr)
        [] f = "conf" -> Holds(o.conf = <<RI(50), RI(90), RI(10)>>)
        [] f = "twin" -> Holds(/\ o.r2 = o.r /\ o.c2 = o.c /\ o.path2 = o.path /\ o.mode2 = o.mode
                               /\ o.conf2 = o.conf /\ Match(o.fs, o.fs2, R("1e-9"), R("1e-9")) # "fail"
                               /\ Match(o.loss, o.loss2, R("1e-9"), R("1e-9")) # "fail")

PimterClause(f, a, o) ==
  CASE f = "heights" -> Holds(o.h = [i \in 1..121 |-> RI(9 + i)])
    [] f = "freq" -> Holds(\A i \in DOMAIN o.f : RClose(o.f[i], PimterFreq, Ga, Gr))
    [] f = "level" -> Holds(o.r = [i \in 1..121 |-> RI(50)])
    [] f = "loss" ->
         Holds(/\ Len(o.loss) = 121
               /\ \A i \in 1..121 :
                    LET Try(sl) == Match(<<PimterLoss(a, 9 + i, sl)>>, <<o.loss[i]>>, R("2e-5"), dBr)
                        v == Try(NoSlack)
                    IN  \/ v # "fail"
                        \/ \E sl \in P2PSlacks(a.z, a.xs[2] -- a.xs[1], <<R("2.56"), RI(9 + i)>>,
                                               Curvature(RI(314))) : Try(sl) = "ok")

----------------------------------------------------------------------------
(* One step.                                                               *)
Ev == Cases[c].ev[l + 1]

SessionOps == {"qlra", "lrprop", "qlrpfl"}
Chk(e) == { e.chk[i] : i \in DOMAIN e.chk }

(* The successor, under some rounding, that explains a point-to-point      *)
(* observation; the one without slack if none does.                        *)
Explains(e, s1) == \A f \in Chk(e) \ {"kept"} : PropClause(f, e.o, s1) # "fail"
AfterP2P(e, s0) ==
  LET P(sl) == PrepareP2P(s0, e.a.z, e.a.xi, e.a.klimx, e.a.mdvarx, sl)
      plain == P(NoSlack)
  IN  IF Explains(e, plain) THEN plain
      ELSE LET ok == { sl \in P2PSlacks(e.a.z, e.a.xi, s0.p.hg, s0.p.gme) : Explains(e, P(sl)) }
           IN  IF ok = {} THEN plain ELSE P(CHOOSE sl \in ok : TRUE)

(* Successor of the session an event works on.                             *)
After(e, s0) ==
  CASE e.op = "begin"  -> Begin(e.a)
    [] e.op = "set"    -> Change(s0, e.a)
    [] e.op = "qlra"   -> PrepareArea(s0, e.a.kst, e.a.klimx, e.a.mdvarx)
    [] e.op = "lrprop" -> Propagate(s0, e.a.d)
    [] e.op = "qlrpfl" -> AfterP2P(e, s0)
    [] e.op = "avar"   -> AskQuantile(s0, e.a.zt, e.a.zl, e.a.zc).st
    [] e.op = "disk"   -> EmptyDisk
    [] e.op = "write"  -> WriteFile(s0, e.a)
    [] e.op = "ws"     -> EmptyWorkspace(e.a)
    [] e.op = "dem"    -> ReplaceData(s0, e.a)
    [] e.op = "run"    -> RunScript(s0, e.a.script)
    [] OTHER           -> s0

QuantileClause(f, e, s0, s1) ==
  IF f = "finite" THEN When(RFinite(AskQuantile(s0, e.a.zt, e.a.zl, e.a.zc).val), RFinite(e.o.val[1]))
  ELSE IF f = "val" THEN Match(<<AskQuantile(s0, e.a.zt, e.a.zl, e.a.zc).val>>, e.o.val, dBa, dBr)
  ELSE PropClause(f, e.o, s1)

PathAtten(e, s0) ==
  IF e.op = "adiff" THEN Adiff(e.a.d, s0.p, s0.k.c, DiffCoef(s0.p, s0.k.c))
  ELSE Alos(e.a.d, s0.p, s0.k.line, LosWeight(s0.p, s0.k.c))

FnValue(e) ==
  CASE e.op = "aknfe" -> Aknfe(e.a.x)
    [] e.op = "fht"   -> Fht(e.a.x, e.a.pk)
    [] e.op = "ahd"   -> Ahd(e.a.x)
    [] e.op = "h0f"   -> H0f(e.a.x, e.a.et)
    [] e.op = "curv"  -> Curv(e.a.c1, e.a.c2, e.a.x1, e.a.x2, e.a.x3, e.a.de)
Functions == {"aknfe", "fht", "ahd", "h0f", "curv"}

SystemClause(f, a, o) ==
  LET wn == WaveNumber(a.fmhz)
      ens == Refractivity(a.en0, a.zsys)
      z == Impedance(a.ipol, a.eps, a.sgm, wn)
  IN  CASE f = "wn" -> Match(<<wn>>, o.wn, Ga, Gr)
        [] f = "ens" -> Match(<<ens>>, o.ens, Ga, Gr)
        [] f = "gme" -> Match(<<Curvature(ens)>>, o.gme, R("1e-18"), Gr)
        [] f = "zgnd" -> Holds(CClose(z, CX(o.zgnd[1], o.zgnd[2]), Ga, Gr))

(* The lists the caller passed still hold what was passed.                 *)
Kept(e, s0) ==
  LET prof == <<RI(Len(e.a.z) - 1), e.a.xi>> \o e.a.z
  IN  CASE e.op = "qlrpfl" -> Holds(e.o.pfl = prof /\ e.o.hgin = s0.p.hg)
        [] e.op = "hzns"   -> Holds(e.o.pfl = prof /\ e.o.hgin = e.a.hg)
        [] e.op \in {"zlsq1", "dlthx"} -> Holds(e.o.pfl = prof)
        [] e.op = "qlra"   -> Holds(/\ e.o.kst = [i \in DOMAIN e.a.kst |-> RI(e.a.kst[i])]
                                    /\ e.o.hgin = s0.p.hg)
        [] e.op \in {"qerfi", "runner"} -> Holds(e.o.after = e.a.q)

Judge(f, e, s0, s1) ==
  CASE f = "kept" -> Kept(e, s0)
    [] e.op \in SessionOps -> PropClause(f, e.o, s1)
    [] e.op = "avar"   -> QuantileClause(f, e, s0, s1)
    [] e.op \in {"adiff", "alos"} -> Match(<<PathAtten(e, s0)>>, e.o.val, dBa, dBr)
    [] e.op \in Functions -> Match(<<FnValue(e)>>, e.o.val, R("1e-7"), R("1e-9"))
    [] e.op = "rel"    -> RelClause(f, e.a)
    [] e.op = "collinear" -> CollinearClause(e.a)
    [] e.op = "hzns"   -> HorizonClause(f, e.a, e.o)
    [] e.op = "zlsq1"  -> LineClause(f, e.a, e.o)
    [] e.op = "dlthx"  -> DhClause(f, e.a, e.o)
    [] e.op = "qerf"   -> NormClause(f, e.a, e.o)
    [] e.op = "qerfi"  -> InverseClause(f, e.a, e.o)
    [] e.op = "qtile"  -> QtileClause(f, e.a, e.o)
    [] e.op = "qlrps"  -> SystemClause(f, e.a, e.o)
    [] e.op = "area_run"   -> AreaRunClause(f, e.a, e.o)
    [] e.op = "p2p_run"    ->
         LET v == P2PRunClause(f, e.a, e.o, NoSlack)
         IN  IF v # "fail" THEN v
             ELSE Holds(\E sl \in P2PSlacks(e.a.z, P2PStep(e.a), e.a.hg, Curvature(RI(314))) :
                           P2PRunClause(f, e.a, e.o, sl) # "fail")
    [] e.op = "pimter_run" -> PimterClause(f, e.a, e.o)
    [] e.op = "threads" -> Holds(e.o.done = e.o.want)      \* every call of the thread came back
    [] e.op \in {"write", "read", "list"} -> DiskClause(f, e.op, e.a, e.o, s1)
    [] e.op \in {"run", "look"} -> WorkspaceClause(f, e.op, e.a, e.o, s1)
    [] OTHER -> FileClause(f, e.op, e.a, e.o)

Wanted(f, e, s0, s1) ==
  CASE f = "kept" -> "the arguments as passed"
    [] e.op \in SessionOps -> PropExpected(f, s1)
    [] e.op = "avar" /\ f \in {"val", "finite"} -> <<RStr(AskQuantile(s0, e.a.zt, e.a.zl, e.a.zc).val)>>
    [] e.op = "avar" -> PropExpected(f, s1)
    [] e.op \in {"adiff", "alos"} -> <<RStr(PathAtten(e, s0))>>
    [] e.op \in Functions -> <<RStr(FnValue(e))>>
    [] OTHER -> "see replay"

Count(vs, x) == Cardinality({f \in DOMAIN vs : vs[f] = x})

(* Everything one event contributes, computed once.                        *)
Step(e, s0) ==
  LET s1 == IF e.s = "-" THEN None ELSE After(e, s0)
      vs == TLCEval([f \in Chk(e) |-> Judge(f, e, s0, s1)])
  IN  [ s1 |-> s1, ok |-> Count(vs, "ok"), skip |-> Count(vs, "skip"),
        bad |-> { [clause |-> f, want |-> Wanted(f, e, s0, s1)] : f \in {g \in Chk(e) : vs[g] = "fail"} } ]

Init == /\ c \in 1..Len(Cases)
        /\ l = 0 /\ n = <<0, 0, 0>>
        /\ st = [x \in {} |-> None]

Next ==
  /\ l < Len(Cases[c].ev)
  /\ \E r \in { Step(Ev, IF Ev.s \in DOMAIN st THEN st[Ev.s] ELSE None) } :
       /\ \A b \in r.bad :
            PrintT("FAIL " \o ToJson([case |-> c, ev |-> l + 1, op |-> Ev.op, clause |-> b.clause,
                                      want |-> b.want]))
       /\ n' = << n[1] + r.ok, n[2] + r.skip, n[3] + Cardinality(r.bad) >>
       /\ st' = IF Ev.s = "-" THEN st ELSE (Ev.s :> r.s1) @@ st
  /\ l' = l + 1
  /\ (l' = Len(Cases[c].ev) => PrintT("END " \o ToJson([case |-> c, n |-> n'])))
  /\ c' = c

Spec == Init /\ [][Next]_vars
View == <<c, l>>
=============================================================================
