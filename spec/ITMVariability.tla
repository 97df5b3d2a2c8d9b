--------------------------- MODULE ITMVariability ---------------------------
(***************************************************************************)
(* Section V: quantiles of attenuation in time, location and situation.    *)
(***************************************************************************)
EXTENDS ITMAttenuation

(* Climates 1..7: equatorial, continental subtropical, maritime            *)
(* subtropical, desert, continental temperate, maritime temperate over     *)
(* land, maritime temperate over sea.  Distances in km.                    *)
VMD  == << <<"-9.67","12.7","144.9","190.3","133.8">>, <<"-0.62","9.19","228.9","205.2","143.6">>,
           <<"1.26","15.5","262.6","185.2","99.8">>,   <<"-9.21","9.05","84.1","101.1","98.6">>,
           <<"-0.62","9.19","228.9","205.2","143.6">>, <<"-0.39","2.86","141.7","315.9","167.4">>,
           <<"3.15","857.9","2222","164.8","116.3">> >>
SGTM == << <<"2.13","159.5","762.2","123.6","94.5">>,  <<"2.66","7.67","100.4","172.5","136.4">>,
           <<"6.11","6.65","138.2","242.2","178.6">>,  <<"1.98","13.11","139.1","132.7","193.5">>,
           <<"2.68","7.16","93.7","186.8","133.5">>,   <<"6.86","10.38","187.8","169.6","108.9">>,
           <<"8.51","169.8","609.8","119.9","106.6">> >>
SGTP == << <<"2.11","102.3","636.9","134.8","95.6">>,  <<"6.87","15.53","138.7","143.7","98.6">>,
           <<"10.08","9.60","165.3","225.7","129.7">>, <<"3.68","159.3","464.4","93.1","94.2">>,
           <<"4.75","8.12","93.2","135.9","113.4">>,   <<"8.58","13.97","216.0","152.0","122.7">>,
           <<"8.43","8.19","136.2","188.5","122.9">> >>
CSD  == <<"1.224","0.801","1.380","1.000","1.224","1.518","1.518">>
ZD   == <<"1.282","2.161","1.282","20","1.282","1.282","1.282">>
FM   == << <<"1","0","0">>, <<"1","0","0">>, <<"1","0","0">>, <<"1","0","0">>,
           <<"0.92","0.25","1.77">>, <<"1","0","0">>, <<"1","0","0">> >>
FP   == << <<"1","0","0">>, <<"0.93","0.31","2.00">>, <<"1","0","0">>, <<"0.93","0.19","1.79">>,
           <<"0.93","0.31","2.00">>, <<"1","0","0">>, <<"1","0","0">> >>

KM(s) == R(s) ** RI(1000)
ClimateCurve(row, de) ==
  Curv(R(row[1]), R(row[2]), KM(row[3]), KM(row[4]), KM(row[5]), de)
FreqGain(row, wn) ==
  R(row[1]) ++ (R(row[2]) // (RSq(R(row[3]) ** RLn(R("0.133") ** wn)) ++ ROne))

(* An impossible climate or mode is replaced by its default (warning 2).   *)
ClimateOK(klim) == klim >= 1 /\ klim <= 7
Climate(klim)   == IF ClimateOK(klim) THEN klim ELSE 5

Interference(m)  == m >= 20
NoLocation(m)    == (IF m >= 20 THEN m - 20 ELSE m) >= 10
BaseMode(m) == LET a == IF m >= 20 THEN m - 20 ELSE m IN IF a >= 10 THEN a - 10 ELSE a
ModeOK(m)   == BaseMode(m) >= 0 /\ BaseMode(m) <= 3
Mode(m)     == IF ModeOK(m) THEN BaseMode(m) ELSE 0

(* Effective distance (5.3)                                                *)
EffDist(dist, he, wn) ==
  LET dexa == (RSqrt(R("18e6") ** he[1]) ++ RSqrt(R("18e6") ** he[2]))
                ++ RPow(R("575.7e12") // wn, Third)
  IN  IF dist \prec dexa THEN (RI(130000) ** dist) // dexa ELSE RI(130000) ++ (dist -- dexa)

(* Deviations for given climate, mode and path.                            *)
Spread(klim, mdvar, wn, he, dist, dh) ==
  LET k  == Climate(klim)
      de == EffDist(dist, he, wn)
      tp == ClimateCurve(SGTP[k], de) ** FreqGain(FP[k], wn)
      q  == DhAt(dh, dist) ** wn
  IN  [vmd  |-> ClimateCurve(VMD[k], de),
       sgtm |-> ClimateCurve(SGTM[k], de) ** FreqGain(FM[k], wn),
       sgtp |-> tp,
       sgtd |-> tp ** R(CSD[k]),
       zd   |-> R(ZD[k]),
       sgl  |-> IF NoLocation(mdvar) THEN RZero ELSE (RI(10) ** q) // (q ++ RI(13)),
       vs0  |-> IF Interference(mdvar) THEN RZero
                ELSE RSq(RI(5) ++ (RI(3) ** RExp(RNeg(de) // RI(100000)))),
       kdv  |-> Mode(mdvar)]

(* How the three deviates are used in each mode.                           *)
Deviates(kdv, zt, zl, zc) ==
  CASE kdv = 0 -> <<zc, zc, zc>>
    [] kdv = 1 -> <<zt, zc, zc>>
    [] kdv = 2 -> <<zt, zt, zc>>
    [] OTHER   -> <<zt, zl, zc>>

RawQuantile(s, aref, zzt, zzl, zzc) ==
  LET z  == Deviates(s.kdv, zzt, zzl, zzc)
      zt == z[1]
      zl == z[2]
      zc == z[3]
      sgt == IF zt \prec RZero THEN s.sgtm
             ELSE IF zt \preceq s.zd THEN s.sgtp
             ELSE s.sgtd ++ (((s.sgtp -- s.sgtd) ** s.zd) // zt)
      vs == (s.vs0 ++ (RSq(sgt ** zt) // (R("7.8") ++ RSq(zc))))
              ++ (RSq(s.sgl ** zl) // (RI(24) ++ RSq(zc)))
      both == RSq(sgt) ++ RSq(s.sgl)
      yr == CASE s.kdv = 0 -> RZero
              [] s.kdv = 1 -> sgt ** zt
              [] s.kdv = 2 -> RSqrt(both) ** zt
              [] OTHER -> (sgt ** zt) ++ (s.sgl ** zl)
      sgc == CASE s.kdv = 0 -> RSqrt(both ++ vs)
               [] s.kdv = 1 -> RSqrt(RSq(s.sgl) ++ vs)
               [] OTHER -> RSqrt(vs)
  IN  ((aref -- s.vmd) -- yr) -- (sgc ** zc)

(* Less loss than free space is possible but compressed (5.15).            *)
Quantile(s, aref, zt, zl, zc) ==
  LET a == RawQuantile(s, aref, zt, zl, zc)
  IN  IF a \prec RZero
      THEN (a ** (RI(29) -- a)) // (RI(29) -- (RI(10) ** a)) ELSE a

DeviateWarning(kdv, zt, zl, zc) ==
  LET z == Deviates(kdv, zt, zl, zc)
  IN  IF \E i \in 1..3 : RAbs(z[i]) \succ R("3.10") THEN 1 ELSE 0
ChoiceWarning(klim, mdvar) == IF ClimateOK(klim) /\ ModeOK(mdvar) THEN 0 ELSE 2
=============================================================================
