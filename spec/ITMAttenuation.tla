--------------------------- MODULE ITMAttenuation ---------------------------
(***************************************************************************)
(* The reference attenuation.  A path is a record p with the primary       *)
(* parameters of the manual (references/itm_man.txt, /PROP/):              *)
(*   mdp dist hg wn dh ens gme zgnd he dl the kwx                          *)
(* Operators named ...Coef compute the secondary parameters (/PROPA/) from *)
(* the primary ones; they are functions, so nothing here can depend on     *)
(* what was asked before.                                                  *)
(***************************************************************************)
EXTENDS ITMTerrain

IMax(a, b) == IF a < b THEN b ELSE a
Pair(Op(_)) == << Op(1), Op(2) >>        \* one value for each terminal

----------------------------------------------------------------------------
(* System parameters: wave number, refractivity, effective earth curvature *)
(* and surface impedance (qlrps, and again inside the runners).            *)
WaveNumber(fmhz) == fmhz // R("47.7")
Refractivity(en0, zsys) ==
  IF zsys = RZero THEN en0 ELSE en0 ** RExp(RNeg(zsys) // RI(9460))
Curvature(ens) ==
  R("157e-9") ** (ROne -- (R("0.04665") ** RExp(ens // R("179.3"))))
Impedance(ipol, eps, sgm, wn) ==
  LET zq == CX(eps, (R("376.62") ** sgm) // wn)
      z  == CSqrt(CSub(zq, CReal(ROne)))
  IN  IF ipol = 0 THEN z ELSE CDiv(z, zq)

----------------------------------------------------------------------------
(* Smooth earth horizon, horizon of rough terrain, elevation angle of it.  *)
SmoothHorizon(he, gme)  == RSqrt((RTwo ** he) // gme)
RoughHorizon(he, gme, dh) ==
  SmoothHorizon(he, gme) ** RExp(R("-0.07") ** RSqrt(dh // RMax(he, RI(5))))
HorizonAngle(he, dl, gme, dh) ==
  LET q == SmoothHorizon(he, gme)
  IN  (((R("0.65") ** dh) ** ((q // dl) -- ROne)) -- (RTwo ** he)) // q

(* Area mode (qlra): effective height from structural height and siting    *)
(* criterion 0 (random), 1 (careful), 2 (very careful).                    *)
AreaHe(kst, hg, dh) ==
  IF kst <= 0 THEN hg
  ELSE LET q0 == IF kst = 1 THEN RI(4) ELSE RI(9)
           q  == IF hg \prec RI(5) THEN q0 ** RSin(R("0.3141593") ** hg) ELSE q0
       IN  hg ++ ((ROne ++ q) **
                  RExp(RNeg(RMin(RI(20), (RTwo ** hg) // RMax(R("1e-3"), dh)))))

AreaGeometry(kst, hg, dh, gme) ==
  LET he == Pair(LAMBDA j : AreaHe(kst[j], hg[j], dh))
      dl == Pair(LAMBDA j : RoughHorizon(he[j], gme, dh))
  IN  [he |-> he, dl |-> dl,
       the |-> Pair(LAMBDA j : HorizonAngle(he[j], dl[j], gme, dh))]

(* Point-to-point mode (qlrpfl).  sl is a tuple of slacks (normally zero)  *)
(* for the limits of the fits, the line of sight decision and the span:    *)
(* rounding may put such a limit on either side of a profile point.        *)
NoSlack == <<0, 0, 0, 0, 0, 0>>

P2PGeometry(z, xi, hg, gme, sl) ==
  LET np   == Len(z) - 1
      dist == RI(np) ** xi
      hz   == Hzns(z, xi, dist, hg, gme)
      x1   == Slack(RMin(RI(15) ** hg[1], R("0.1") ** hz.dl[1]), sl[1])
      x2   == Slack(dist -- RMin(RI(15) ** hg[2], R("0.1") ** hz.dl[2]), sl[2])
      dh   == Dlthx(z, xi, x1, x2, sl[6])
      los  == Slack(hz.dl[1] ++ hz.dl[2], sl[5]) \succeq (R("1.5") ** dist)
      line == Zlsq1(z, xi, x1, x2)
      near == Zlsq1(z, xi, x1, Slack(R("0.9") ** hz.dl[1], sl[3]))
      far  == Zlsq1(z, xi, Slack(dist -- (R("0.9") ** hz.dl[2]), sl[4]), x2)
      za   == IF los THEN line.z0 ELSE near.z0
      zb   == IF los THEN line.zn ELSE far.zn
      he0  == << hg[1] ++ RMax(z[1] -- za, RZero), hg[2] ++ RMax(z[np + 1] -- zb, RZero) >>
      dl0  == Pair(LAMBDA j : RoughHorizon(he0[j], gme, dh))
      q    == dl0[1] ++ dl0[2]
      grow == q \preceq dist
      he1  == IF grow THEN Pair(LAMBDA j : he0[j] ** RSq(dist // q)) ELSE he0
      dl1  == IF grow THEN Pair(LAMBDA j : RoughHorizon(he1[j], gme, dh)) ELSE dl0
  IN  IF los
      THEN [dist |-> dist, dh |-> dh, he |-> he1, dl |-> dl1, los |-> TRUE, grow |-> grow,
            the |-> Pair(LAMBDA j : HorizonAngle(he1[j], dl1[j], gme, dh))]
      ELSE [dist |-> dist, dh |-> dh, he |-> he0, dl |-> hz.dl, los |-> FALSE, grow |-> FALSE,
            the |-> hz.the]

(* The slacks that can make a difference for this profile.                 *)
P2PSlacks(z, xi, hg, gme) ==
  LET np   == Len(z) - 1
      dist == RI(np) ** xi
      hz   == Hzns(z, xi, dist, hg, gme)
      x1   == RMin(RI(15) ** hg[1], R("0.1") ** hz.dl[1])
      x2   == dist -- RMin(RI(15) ** hg[2], R("0.1") ** hz.dl[2])
      sum  == (hz.dl[1] ++ hz.dl[2]) // (R("1.5") ** dist)
      span == (x2 -- x1) // xi
  IN  { <<a, b, c, d, e, f>> :
          a \in Ticks(NearInt(x1 // xi)), b \in Ticks(NearInt(x2 // xi)),
          c \in Ticks(NearInt((R("0.9") ** hz.dl[1]) // xi)),
          d \in Ticks(NearInt((dist -- (R("0.9") ** hz.dl[2])) // xi)),
          e \in Ticks(RClose(sum, ROne, R("1e-6"), RZero)),
          f \in Ticks(NearInt((span ++ RI(8)) // RI(10)) \/ RClose(span, RTwo, R("1e-6"), RZero)) }

----------------------------------------------------------------------------
(* Coefficients common to every region.                                    *)
PathCoef(p) ==
  LET dls  == Pair(LAMBDA j : SmoothHorizon(p.he[j], p.gme))
      dla  == p.dl[1] ++ p.dl[2]
  IN  [dls  |-> dls,
       dlsa |-> dls[1] ++ dls[2],
       dla  |-> dla,
       tha  |-> RMax(p.the[1] ++ p.the[2], RNeg(dla) ** p.gme),
       dmin |-> RAbs(p.he[1] -- p.he[2]) // R("0.2"),
       xae  |-> RPow(p.wn ** RSq(p.gme), RNeg(Third))]

(* --- Diffraction (4.9)-(4.20) ------------------------------------------ *)
DiffCoef(p, c) ==
  LET hh  == p.hg[1] ** p.hg[2]
      q   == IF p.mdp < 0 THEN hh ++ RI(10) ELSE hh
      s   == SigmaH(DhAt(p.dh, c.dlsa))
      qk  == ROne // CAbs(p.zgnd)
      a   == Pair(LAMBDA j : (R("0.5") ** RSq(p.dl[j])) // p.he[j])
      wa  == Pair(LAMBDA j : RPow(a[j] ** p.wn, Third))
      pk  == Pair(LAMBDA j : qk // wa[j])
      xh  == Pair(LAMBDA j : ((((R("1.607") -- pk[j]) ** RI(151)) ** wa[j]) ** p.dl[j]) // a[j])
  IN  [wd1 |-> RSqrt(ROne ++ (((p.he[1] ** p.he[2]) -- hh) // q)),
       xd1 |-> c.dla ++ (c.tha // p.gme),
       afo |-> RMin(RI(15), R("2.171") ** RLn(ROne ++ (((R("4.77e-4") ** hh) ** p.wn) ** s))),
       qk  |-> qk,
       aht |-> (RI(20) ++ Fht(xh[1], pk[1])) ++ Fht(xh[2], pk[2]),
       xht |-> xh[1] ++ xh[2]]

Adiff(d, p, c, f) ==
  LET th == c.tha ++ (d ** p.gme)
      ds == d -- c.dla
      q1 == ((R("0.0795775") ** p.wn) ** ds) ** RSq(th)
      ak == Aknfe((q1 ** p.dl[1]) // (ds ++ p.dl[1])) ++ Aknfe((q1 ** p.dl[2]) // (ds ++ p.dl[2]))
      wa == RPow((ds // th) ** p.wn, Third)
      pk == f.qk // wa
      q2 == ((((R("1.607") -- pk) ** RI(151)) ** wa) ** th) ++ f.xht
      ar == ((R("0.05751") ** q2) -- (dB4 ** RLn(q2))) -- f.aht
      q3 == (f.wd1 ++ (f.xd1 // d)) ** RMin(DhAt(p.dh, d) ** p.wn, R("6283.2"))
      wd == R("25.1") // (R("25.1") ++ RSqrt(q3))
  IN  ((ar ** wd) ++ ((ROne -- wd) ** ak)) ++ f.afo

(* The straight line through two points of the diffraction region.         *)
DiffLine(p, c) ==
  LET f  == DiffCoef(p, c)
      d3 == RMax(c.dlsa, (R("1.3787") ** c.xae) ++ c.dla)
      d4 == d3 ++ (R("2.7574") ** c.xae)
      a3 == Adiff(d3, p, c, f)
      a4 == Adiff(d4, p, c, f)
      m  == (a4 -- a3) // (d4 -- d3)
  IN  [emd |-> m, aed |-> a3 -- (m ** d3)]

(* --- Line of sight (4.23)-(4.50) ---------------------------------------- *)
LosWeight(p, c) ==
  R("0.021") // (R("0.021") ++ ((p.wn ** p.dh) // RMax(RI(10000), c.dlsa)))

Alos(d, p, line, w) ==
  LET s   == SigmaH(DhAt(p.dh, d))
      hs  == p.he[1] ++ p.he[2]
      sps == hs // RSqrt(RSq(d) ++ RSq(hs))
      r0  == CScale(CDiv(CSub(CReal(sps), p.zgnd), CAdd(CReal(sps), p.zgnd)),
                    RExp(RNeg(RMin(RI(10), (p.wn ** s) ** sps))))
      m   == CAbs2(r0)
      r   == IF m \prec R("0.25") \/ m \prec sps THEN CScale(r0, RSqrt(sps // m)) ELSE r0
      ad  == (line.emd ** d) ++ line.aed
      q0  == (((p.wn ** p.he[1]) ** p.he[2]) ** RTwo) // d
      q   == IF q0 \succ R("1.57") THEN R("3.14") -- (R("2.4649") // q0) ELSE q0
      at  == RNeg(dB4) ** RLn(CAbs2(CAdd(CX(RCos(q), RNeg(RSin(q))), r)))
  IN  ((at -- ad) ** w) ++ ad

LosCoef(p, c, line) ==
  LET w  == LosWeight(p, c)
      d2 == c.dlsa
      a2 == line.aed ++ (d2 ** line.emd)
      dd == ((R("1.908") ** p.wn) ** p.he[1]) ** p.he[2]
      pos == line.aed \succeq RZero
      d0 == IF pos THEN RMin(dd, R("0.5") ** c.dla) ELSE dd
      d1 == IF pos THEN d0 ++ (R("0.25") ** (c.dla -- d0))
            ELSE RMax(RNeg(line.aed) // line.emd, R("0.25") ** c.dla)
      a1 == Alos(d1, p, line, w)
      a0 == Alos(d0, p, line, w)
      q  == RLn(d2 // d0)
      k2 == RMax(RZero, (((d2 -- d0) ** (a1 -- a0)) -- ((d1 -- d0) ** (a2 -- a0)))
                        // (((d2 -- d0) ** RLn(d1 // d0)) -- ((d1 -- d0) ** q)))
      k1 == ((a2 -- a0) -- (k2 ** q)) // (d2 -- d0)
      k2x == RMax(a2 -- a0, RZero) // q
      three == (d0 \prec d1) /\ (pos \/ RZero \prec k2)
      ks == IF three
            THEN IF k1 \prec RZero
                 THEN IF k2x = RZero THEN <<line.emd, RZero>> ELSE <<RZero, k2x>>
                 ELSE <<k1, k2>>
            ELSE LET k == RMax(a2 -- a1, RZero) // (d2 -- d1)
                 IN  IF k = RZero THEN <<line.emd, RZero>> ELSE <<k, RZero>>
  IN  [ak1 |-> ks[1], ak2 |-> ks[2],
       ael |-> (a2 -- (ks[1] ** d2)) -- (ks[2] ** RLn(d2))]

(* --- Tropospheric scatter (4.60)-(4.67) --------------------------------- *)
Inadmissible == RI(1001)

ScatGeometry(p) ==
  LET ad == p.dl[1] -- p.dl[2]
      rr == p.he[2] // p.he[1]
  IN  [ad |-> RAbs(ad), rr |-> IF ad \prec RZero THEN ROne // rr ELSE rr,
       etq |-> (((R("5.67e-6") ** p.ens) -- R("2.32e-3")) ** p.ens) ++ R("0.031")]

(* h0s: the frequency gain of the previous evaluation, -15 at first.       *)
Ascat(d, p, tha, g, h0s) ==
  LET th0 == (p.the[1] ++ p.the[2]) ++ (d ** p.gme)
      r1  == ((RTwo ** p.wn) ** th0) ** p.he[1]
      r2  == ((RTwo ** p.wn) ** th0) ** p.he[2]
      s0  == (d -- g.ad) // (d ++ g.ad)
      q   == RMin(RMax(R("0.1"), g.rr // s0), RI(10))
      ss  == RMax(R("0.1"), s0)
      z0  == ((((d -- g.ad) ** (d ++ g.ad)) ** th0) ** R("0.25")) // d
      m   == RMin(R("1.7"), z0 // RI(8000))
      m6  == RSq(m ** RSq(m))
      et  == (((g.etq ** RExp(RNeg(m6))) ++ ROne) ** z0) // R("1755.6")
      ett == RMax(et, ROne)
      ha  == (H0f(r1, ett) ++ H0f(r2, ett)) ** R("0.5")
      hb  == RMax(RZero, ha ++ RMin(ha, (((R("1.38") -- RLn(ett)) ** RLn(ss)) ** RLn(q)) ** R("0.49")))
      hc  == IF et \prec ROne
             THEN (et ** hb) ++ (((ROne -- et) ** dB4) **
                    RLn((RSq((ROne ++ (R("1.4142") // r1)) ** (ROne ++ (R("1.4142") // r2)))
                         ** (r1 ++ r2)) // ((r1 ++ r2) ++ R("2.8284"))))
             ELSE hb
      hd  == IF hc \succ RI(15) /\ h0s \succeq RZero THEN h0s ELSE hc
      h0  == IF h0s \succ RI(15) THEN h0s ELSE hd
      th  == tha ++ (d ** p.gme)
      val == ((Ahd(th ** d) ++ (dB4 ** RLn((R("47.7") ** p.wn) ** RSq(RSq(th)))))
               -- ((R("0.1") ** (p.ens -- RI(301))) ** RExp(RNeg(th ** d) // RI(40000)))) ++ h0
  IN  IF ~(h0s \succ RI(15)) /\ r1 \prec R("0.2") /\ r2 \prec R("0.2")
      THEN [a |-> Inadmissible, h0s |-> h0s]
      ELSE [a |-> val, h0s |-> h0]

ScatCoef(p, c, line) ==
  LET g  == ScatGeometry(p)
      d5 == c.dla ++ RI(200000)
      d6 == d5 ++ RI(200000)
      s6 == Ascat(d6, p, c.tha, g, RI(-15))
      s5 == Ascat(d5, p, c.tha, g, s6.h0s)
      ems == (s6.a -- s5.a) // RI(200000)
      dx  == RMax(RMax(c.dlsa, c.dla ++ ((R("0.3") ** c.xae) ** RLn(R("47.7") ** p.wn))),
                  ((s5.a -- line.aed) -- (ems ** d5)) // (line.emd -- ems))
  IN  IF s5.a \prec RI(1000)
      THEN [ems |-> ems, dx |-> dx, aes |-> ((line.emd -- ems) ** dx) ++ line.aed]
      ELSE [ems |-> line.emd, dx |-> RI(10000000), aes |-> line.aed]

----------------------------------------------------------------------------
(* The reference attenuation at distance d (4.1).                          *)
Coefs(p) ==
  LET c    == PathCoef(p)
      line == DiffLine(p, c)
  IN  [c |-> c, line |-> line, los |-> LosCoef(p, c, line), scat |-> ScatCoef(p, c, line)]

Region(d, k) ==
  IF RZero \prec d /\ d \prec k.c.dlsa THEN "los"
  ELSE IF d \succ k.scat.dx THEN "scatter" ELSE "diffraction"

RawAttenuation(d, k) ==
  CASE Region(d, k) = "los" ->
         (k.los.ael ++ (k.los.ak1 ** d)) ++ (k.los.ak2 ** RLn(d))
    [] Region(d, k) = "diffraction" -> k.line.aed ++ (k.line.emd ** d)
    [] OTHER -> k.scat.aes ++ (k.scat.ems ** d)
Attenuation(d, k) == RMax(RawAttenuation(d, k), RZero)

(* --- The warning marker ------------------------------------------------- *)
(* e (normally 0) moves the thresholds that are themselves computed by     *)
(* e * 1e-9, relatively: a value that close to one may be rounded to       *)
(* either side of it.                                                      *)
Outside(x, lo, hi) == x \prec lo \/ x \succ hi
PathWarning(p, c, e) ==
  LET caution == \/ Outside(p.wn, R("0.838"), RI(210))
                 \/ \E j \in 1..2 : Outside(p.hg[j], ROne, RI(1000))
      internal == \E j \in 1..2 :
                     \/ RAbs(p.the[j]) \succ Slack(R("0.2"), e)
                     \/ Outside(p.dl[j], Slack(R("0.1") ** c.dls[j], -e), Slack(RI(3) ** c.dls[j], e))
      beyond == \/ Outside(p.ens, RI(250), RI(400))
                \/ Outside(p.gme, R("75e-9"), R("250e-9"))
                \/ p.zgnd.re \prec Slack(RAbs(p.zgnd.im), -e)
                \/ Outside(p.wn, R("0.419"), RI(420))
                \/ \E j \in 1..2 : Outside(p.hg[j], R("0.5"), RI(3000))
  IN  IF beyond THEN 4 ELSE IF internal THEN 3 ELSE IF caution THEN 1 ELSE 0
DistanceWarning(d, c, e) ==
  IF ~(d \succ RZero) THEN 0
  ELSE IF Outside(d, RI(1000), RI(2000000)) THEN 4
  ELSE IF d \prec Slack(c.dmin, -e) THEN 3
  ELSE IF d \succ RI(1000000) THEN 1 ELSE 0
=============================================================================
