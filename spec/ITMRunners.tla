----------------------------- MODULE ITMRunners -----------------------------
(***************************************************************************)
(* The scripts: what the area, point-to-point and PIMTER runners report.   *)
(* A runner is a fixed sequence of ITMSession actions.                     *)
(***************************************************************************)
EXTENDS ITMSession

Pct(q) == RI(q) // RI(100)
(* Four decimals of the deviate, as qerfi returns it; half of the last     *)
(* place is far below the tolerance of the comparison.                     *)
Round4(x) == RI(RFloor((x ** RI(10000)) ++ R("0.5"))) // RI(10000)
Deviate(q) == Round4(Qerfi(Pct(q)))

FreeSpace(wn, d) == R("8.685890") ** RLn((RTwo ** wn) ** d)

Station(fmhz, hg, dh, ipol, ens, eps, sgm, lvar, klim, mdvar) ==
  LET wn == WaveNumber(fmhz)
      z  == Impedance(ipol, eps, sgm, wn)
  IN  Begin([hg |-> hg, wn |-> wn, dh |-> dh, ens |-> ens, gme |-> Curvature(ens),
             zgnd |-> <<z.re, z.im>>, kwx |-> 0, lvar |-> lvar, klim |-> klim, mdvar |-> mdvar])

----------------------------------------------------------------------------
(* Area runner.                                                            *)
AreaDistances == [i \in 1..15 |-> 10 * i] \o [i \in 1..7 |-> 150 + 50 * i]
Confidences   == <<50, 90, 10>>

AreaSession(u) ==
  PrepareArea(Station(u.fmhz, u.hg, u.dh, u.ipol, RI(301), RI(15), R("0.001"), 0, 5, 3),
              <<2, 2>>, 5, 3)

AreaRows(u) ==
  LET s0 == Propagate(AreaSession(u), RI(10000))
      Row(km, qc) ==
        LET s1 == Propagate([s0 EXCEPT !.lvar = 5], RI(km) ** RI(1000))
            q  == AskQuantile(s1, Deviate(50), Deviate(50), Deviate(qc))
        IN  [d |-> km, c |-> qc, loss |-> FreeSpace(s1.p.wn, s1.p.dist) ++ q.val]
  IN  Force([i \in 1..(22 * 3) |-> Row(AreaDistances[((i - 1) \div 3) + 1],
                                       Confidences[((i - 1) % 3) + 1])])

----------------------------------------------------------------------------
(* Point-to-point runner.                                                  *)
Reliabilities == <<1, 10, 50, 90, 99>>

P2PStation(u) ==
  Station(u.fmhz, u.hg, RZero, u.ipol, RI(314), RI(15), R("0.005"), 5, 5, 0)
P2PStep(u) == (u.d ** RI(1000)) // RI(Len(u.z) - 1)
P2PSession(u, sl) == PrepareP2P(P2PStation(u), u.z, P2PStep(u), 0, 11, sl)

P2PRowsOf(st) ==
  LET fs == FreeSpace(st.p.wn, st.p.dist)
  IN  Force([i \in 1..15 |->
        LET qr == Reliabilities[((i - 1) \div 3) + 1]
            qc == Confidences[((i - 1) % 3) + 1]
        IN  [r |-> qr, c |-> qc,
             loss |-> fs ++ AskQuantile(st, Deviate(qr), RZero, Deviate(qc)).val]])

(* Classification of the path: dist against the smooth-earth horizon, to   *)
(* within half a profile interval; e is rounding slack.                    *)
PathClass(st, xi, e) ==
  LET q == (st.p.dist -- st.k.c.dlsa) ++ (RI(e) ** (R("1e-9") ** st.p.dist))
      h == R("0.5") ** xi
  IN  IF q \succ h THEN "Double-horizon path"
      ELSE IF RNeg(q) \succ h THEN "Line of sight path" ELSE "Single horizon path"
Dominant(st, e) ==
  LET d == Slack(st.p.dist, e)
  IN  IF d \prec st.k.c.dlsa THEN "none"
      ELSE IF d \preceq st.k.scat.dx THEN "Diffraction is the dominant mode"
      ELSE "Tropospheric scatter is the dominant mode"

----------------------------------------------------------------------------
(* PIMTER runner: heights 10..130 at the far end, receiver at the start.   *)
PimterFreq == RI(2488)
PimterSession(u, h, sl) ==
  LET st == Station(PimterFreq, <<R("2.56"), RI(h)>>, RZero, 1, RI(314), RI(15), R("0.005"), 5, 5, 0)
  IN  PrepareP2P(st, u.z, u.xs[2] -- u.xs[1], 0, 11, sl)
PimterLoss(u, h, sl) ==
  LET st == PimterSession(u, h, sl)
  IN  FreeSpace(st.p.wn, st.p.dist) ++ AskQuantile(st, Deviate(50), RZero, Deviate(50)).val
=============================================================================
