---------------------------- MODULE ITMFunctions ----------------------------
(***************************************************************************)
(* The elementary curves of the Irregular Terrain Model, version 1.2.2     *)
(* (G. A. Hufford, "The Algorithm"; equation numbers as cited there and in *)
(* the repository's docstrings).                                           *)
(***************************************************************************)
EXTENDS Complex64, SequencesExt, FiniteSetsExt

Third == ROne // RI(3)
dB4   == R("4.343")                       \* 10 log10(e), as the report rounds it

(* Roughness of terrain seen over distance d (3.9) and its rms (3.10).     *)
DhAt(dh, d)   == (ROne -- R("0.8") ** RExp(RNeg(d // RI(50000)))) ** dh
SigmaH(dhd)   == (R("0.78") ** dhd) ** RExp(RNeg(RPow(dhd // RI(16), R("0.25"))))

----------------------------------------------------------------------------
(* Knife edge diffraction (6.1); the argument is v^2.                      *)
KnifeEdgeFloor == R("0.00001")            \* smallest v^2 the code works with
Aknfe(v2) ==
  IF v2 \prec R("5.76")
  THEN LET v == IF v2 \preceq RZero THEN KnifeEdgeFloor ELSE v2
       IN  (R("6.02") ++ R("9.11") ** RSqrt(v)) -- (R("1.27") ** v)
  ELSE R("12.953") ++ dB4 ** RLn(v2)

(* Height gain over a smooth spherical earth (6.2)-(6.7).                  *)
Fht(x, pk) ==
  IF x \prec RI(200)
  THEN LET w == RNeg(RLn(pk)) IN
       IF pk \prec R("1e-5") \/ (x ** (w ** (w ** w))) \succ RI(5495)
       THEN IF x \succ ROne THEN (R("17.372") ** RLn(x)) ++ RI(-117) ELSE RI(-117)
       ELSE (((R("2.5e-5") ** RSq(x)) // pk) -- (R("8.686") ** w)) -- RI(15)
  ELSE LET g == (R("0.05751") ** x) -- (dB4 ** RLn(x)) IN
       IF x \prec RI(2000)
       THEN LET w == (R("0.0134") ** x) ** RExp(R("-0.005") ** x)
            IN  ((ROne -- w) ** g) ++ (w ** ((R("17.372") ** RLn(x)) -- RI(117)))
       ELSE g

(* Scatter: F0 (6.9) ...                                                   *)
AhdTable == << [upto |-> RI(10000), a |-> R("133.4"), b |-> R("0.332e-3"), c |-> R("-4.343")],
               [upto |-> RI(70000), a |-> R("104.6"), b |-> R("0.212e-3"), c |-> R("-1.086")],
               [upto |-> RI(0),     a |-> R("71.8"),  b |-> R("0.157e-3"), c |-> R("2.171")] >>
Ahd(td) ==
  LET row == IF td \preceq AhdTable[1].upto THEN AhdTable[1]
             ELSE IF td \preceq AhdTable[2].upto THEN AhdTable[2] ELSE AhdTable[3]
  IN  (row.a ++ row.b ** td) ++ (row.c ** RLn(td))

(* ... and the frequency gain H01 (6.13), interpolated between integral    *)
(* values 1..5 of the scattering efficiency.                               *)
H0A == << 25, 80, 177, 395, 705 >>
H0B == << 24, 45, 68, 80, 105 >>
H0Curve(j, r) == LET x == RSq(ROne // r)
                 IN  dB4 ** RLn((((RI(H0A[j]) ** x) ++ RI(H0B[j])) ** x) ++ ROne)
H0f(r, et) ==
  LET it == RFloor(et) IN
  IF it <= 0 THEN H0Curve(1, r)
  ELSE IF it >= 5 THEN H0Curve(5, r)
  ELSE LET q == et -- RI(it)
       IN  ((ROne -- q) ** H0Curve(it, r)) ++ (q ** H0Curve(it + 1, r))

(* Empirical climate curves (5.5)-(5.7).                                   *)
Curv(c1, c2, x1, x2, x3, de) ==
  LET u == RSq(de // x1)
  IN  ((c1 ++ (c2 // (ROne ++ RSq((de -- x2) // x3)))) ** u) // (ROne ++ u)

----------------------------------------------------------------------------
(* Normal deviates: Hastings' rational approximations.                     *)
Qerf(z) ==
  LET t0 == RAbs(z)
      t  == R("4.317008") // (t0 ++ R("4.317008"))
      poly == ((((((((R("1.330274429") ** t) ++ R("-1.821255987")) ** t) ++ R("1.781477937"))
               ** t) ++ R("-0.356563782")) ** t) ++ R("0.319381530")) ** t
      up == IF t0 \succeq RI(10) THEN RZero
            ELSE (RExp(R("-0.5") ** RSq(z)) ** R("0.398942280")) ** poly
  IN  IF z \prec RZero THEN ROne -- up ELSE up

(* Before the code's rounding to four decimals.                            *)
Qerfi(q) ==
  LET x == R("0.5") -- q
      t == RSqrt(RI(-2) ** RLn(RMax(R("0.5") -- RAbs(x), R("0.000001"))))
      num == ((((R("0.010328") ** t) ++ R("0.802853")) ** t) ++ R("2.515516698"))
      den == (((((((R("0.001308") ** t) ++ R("0.189269")) ** t) ++ R("1.432788")) ** t) ++ ROne))
      v == t -- (num // den)
  IN  IF x \prec RZero THEN RNeg(v) ELSE v

(* The element of rank ir (0 = largest): exactly the values of a that have *)
(* at most ir strictly larger elements and more than ir at least as large. *)
IsQtile(v, a, ir) ==
  /\ \E i \in 1..Len(a) : a[i] = v
  /\ Cardinality({i \in 1..Len(a) : v \prec a[i]}) <= ir
  /\ Cardinality({i \in 1..Len(a) : v \preceq a[i]}) > ir
Qtile(a, ir) == RSortDown(a)[ir + 1]
=============================================================================
