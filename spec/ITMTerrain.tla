----------------------------- MODULE ITMTerrain -----------------------------
(***************************************************************************)
(* Terrain geometry.  A profile is a sequence z of np+1 elevations spaced  *)
(* xi apart (point i, 1-based, lies (i-1)*xi from the first terminal).     *)
(***************************************************************************)
EXTENDS ITMFunctions

Force(f) == SubSeq(f, 1, Len(f))          \* evaluate a sequence once

(* --- Radio horizons --------------------------------------------------- *)
(* Elevation angle, over the effective earth, at which an antenna at       *)
(* height h above datum sees a point of elevation zp at distance s.        *)
TakeOff(h, zp, s, gme) == ((zp -- h) // s) -- ((R("0.5") ** gme) ** s)

(* What terminal 1 (fwd) or 2 sees: the other antenna and every            *)
(* intermediate terrain point.                                             *)
Views(z, xi, dist, hg, gme, fwd) ==
  LET np == Len(z) - 1
      za == z[1] ++ hg[1]
      zb == z[np + 1] ++ hg[2]
      me == IF fwd THEN za ELSE zb
      you == IF fwd THEN zb ELSE za
  IN  Force([ i \in 1..np |->
         IF i = np THEN [ang |-> TakeOff(me, you, dist, gme), s |-> dist]
         ELSE LET s == IF fwd THEN RI(i) ** xi ELSE dist -- (RI(i) ** xi)
              IN  [ang |-> TakeOff(me, z[i + 1], s, gme), s |-> s] ])

(* The horizon is the highest of them; of several, the one first met when  *)
(* walking from terminal 1.                                                *)
Horizon(z, xi, dist, hg, gme, fwd) ==
  LET vs == Views(z, xi, dist, hg, gme, fwd)
      np == Len(vs)
  IN  FoldLeft(LAMBDA best, v : IF best.ang \prec v.ang THEN v ELSE best,
               vs[np], SubSeq(vs, 1, np - 1))

Hzns(z, xi, dist, hg, gme) ==
  LET a == Horizon(z, xi, dist, hg, gme, TRUE)
      b == Horizon(z, xi, dist, hg, gme, FALSE)
  IN  [the |-> <<a.ang, b.ang>>, dl |-> <<a.s, b.s>>]

(* --- Rounding slack ------------------------------------------------------ *)
(* Where a computed quantity is compared with a limit or truncated to a    *)
(* grid, rounding may put it on either side.  e in {-1, 0, 1} moves it by  *)
(* a relative 1e-9; 0 is the value itself.                                 *)
Slack(x, e) == IF e = 0 THEN x ELSE x ** (ROne ++ (RI(e) ** R("1e-9")))
NearInt(x)  == LET f == RFloor(x ++ R("0.5"))
               IN  RAbs(x -- RI(f)) \preceq R("1e-6")
Ticks(near) == IF near THEN {-1, 0, 1} ELSE {0}

(* --- Least squares line ------------------------------------------------ *)
(* The whole intervals of the profile that contain [x1, x2]; an empty      *)
(* choice is widened by one interval to each side, within the profile.     *)
FitRange(np, xi, x1, x2) ==
  LET lo == RTrunc(RMax(x1 // xi, RZero))
      hi == np - RTrunc(RMax(RI(np) -- (x2 // xi), RZero))
  IN  IF hi <= lo
      THEN [lo |-> IF lo > 1 THEN lo - 1 ELSE 0, hi |-> IF hi + 1 < np THEN hi + 1 ELSE np]
      ELSE [lo |-> lo, hi |-> hi]

(* Heights at both ends of the profile of the fitted line.  The fit takes  *)
(* the end points of the range with weight one half.                       *)
Zlsq1(z, xi, x1, x2) ==
  LET np == Len(z) - 1
      r  == FitRange(np, xi, x1, x2)
      n  == r.hi - r.lo
      w  == RI(n)
      mid == (RI(r.lo) ++ RI(r.hi)) // RTwo
      half == R("0.5") ** (z[r.lo + 1] ++ z[r.hi + 1])
      halfm == (R("0.5") ** (z[r.lo + 1] -- z[r.hi + 1])) ** (RNeg(w) // RTwo)
      inner == [k \in 1..(n - 1) |-> r.lo + k]
      sum == FoldLeft(LAMBDA acc, j : acc ++ z[j + 1], half, inner)
      mom == FoldLeft(LAMBDA acc, j : acc ++ (z[j + 1] ** (RI(j) -- mid)), halfm, inner)
      mean  == sum // w
      slope == (RI(12) ** mom) // ((RSq(w) ++ RTwo) ** w)
  IN  [z0 |-> mean -- (slope ** mid), zn |-> mean ++ (slope ** (RI(np) -- mid))]

(* --- Terrain irregularity ---------------------------------------------- *)
(* Linear interpolation of the profile at position x (in intervals).       *)
Interp(z, x) ==
  LET np == Len(z) - 1
      k0 == RFloor(x)
      k  == IF k0 >= np THEN np - 1 ELSE IF k0 < 0 THEN 0 ELSE k0
      f  == x -- RI(k)
  IN  z[k + 1] ++ ((z[k + 2] -- z[k + 1]) ** f)

(* Interdecile range of the detrended profile between x1 and x2, corrected *)
(* to its asymptotic value.  e: slack on the span, which decides how many  *)
(* points are taken.                                                       *)
Dlthx(z, xi, x1, x2, e) ==
  LET xa == x1 // xi
      xb == x2 // xi
      span == Slack(xb -- xa, e)
  IN  IF span \prec RTwo THEN RZero
      ELSE
      LET ka0 == RTrunc(R("0.1") ** (span ++ RI(8)))
          ka == IF ka0 < 4 THEN 4 ELSE IF ka0 > 25 THEN 25 ELSE ka0
          n  == 10 * ka - 5
          kb == n - ka + 1
          step == (xb -- xa) // RI(n - 1)
          s  == Force([j \in 1..n |-> Interp(z, xa ++ (RI(j - 1) ** step))])
          fit == Zlsq1(s, ROne, RZero, RI(n - 1))
          tilt == (fit.zn -- fit.z0) // RI(n - 1)
          flat == [j \in 1..n |-> s[j] -- (fit.z0 ++ (RI(j - 1) ** tilt))]
          srt == RSortDown(flat)
      IN  (srt[ka] -- srt[kb])
            // (ROne -- (R("0.8") ** RExp(RNeg((x2 -- x1) // RI(50000)))))

(* terrain_module: number of samples and interdecile range                 *)
NumSamplesReal(dm) ==
  RI(600) -- (ROne // ((R("1e-5") ** dm) ++ (ROne // RI(598))))
(* numpy's linear-interpolation percentile, p in percent                   *)
PercentileSorted(asc, p) ==
  LET n == Len(asc)
      pos == (RI(p) // RI(100)) ** RI(n - 1)
      k0 == RFloor(pos)
      k == IF k0 >= n - 1 THEN n - 2 ELSE k0
  IN  IF n = 1 THEN asc[1]
      ELSE asc[k + 1] ++ ((asc[k + 2] -- asc[k + 1]) ** (pos -- RI(k)))
Interdecile(a) ==
  LET asc == Reverse(RSortDown(a))
  IN  PercentileSorted(asc, 90) -- PercentileSorted(asc, 10)
=============================================================================
