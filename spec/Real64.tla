------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers for specifications checked with TLC.          *)
(*                                                                         *)
(* TLC's integers are 32 bits wide and it has no reals, so a number is     *)
(* the pair <<hi, lo>> of the two signed 32-bit halves of its bit pattern. *)
(* The operators below have no useful TLA+ definition: TLC evaluates them  *)
(* with the Java module override spec/java/itm/Real64Overrides.java, which *)
(* holds ONLY these arithmetic primitives.  Everything the model says      *)
(* about radio propagation is written in TLA+ on top of them.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

OverrideMissing == CHOOSE x \in {} : TRUE

R(s)        == OverrideMissing  \* the number written in decimal in string s
RI(i)       == OverrideMissing  \* integer -> number
RAdd(a, b)  == OverrideMissing
RSub(a, b)  == OverrideMissing
RMul(a, b)  == OverrideMissing
RDiv(a, b)  == OverrideMissing
RPow(a, b)  == OverrideMissing  \* a^b
RLt(a, b)   == OverrideMissing  \* a < b   (FALSE if either is NaN)
RLe(a, b)   == OverrideMissing  \* a <= b  (FALSE if either is NaN)
RNeg(a)     == OverrideMissing
RAbs(a)     == OverrideMissing
RSqrt(a)    == OverrideMissing
RExp(a)     == OverrideMissing
RLn(a)      == OverrideMissing
RSin(a)     == OverrideMissing
RCos(a)     == OverrideMissing
RAtan2(y, x) == OverrideMissing
RFloor(a)   == OverrideMissing  \* greatest integer <= a, as a TLA+ integer
RTrunc(a)   == OverrideMissing  \* a rounded towards zero, as a TLA+ integer
RFinite(a)  == OverrideMissing  \* neither NaN nor infinite
RStr(a)     == OverrideMissing  \* decimal rendering, for messages
RNormQ(a)   == OverrideMissing  \* 1 - Phi(a), the exact normal upper tail, to 1e-13
RSortDown(s) == OverrideMissing \* the sequence s of numbers in descending order

a ++ b  == RAdd(a, b)
a -- b  == RSub(a, b)
a ** b  == RMul(a, b)
a // b  == RDiv(a, b)
a \prec b    == RLt(a, b)
a \preceq b  == RLe(a, b)
a \succ b    == RLt(b, a)
a \succeq b  == RLe(b, a)

RZero == RI(0)
ROne  == RI(1)
RTwo  == RI(2)
RMax(a, b) == IF a \prec b THEN b ELSE a
RMin(a, b) == IF b \prec a THEN b ELSE a
RSq(a)     == a ** a

(* |a - b| <= atol + rtol * max(|a|, |b|); FALSE when a or b is NaN.      *)
RClose(a, b, atol, rtol) ==
  \/ a = b /\ RFinite(a)
  \/ RAbs(a -- b) \preceq (atol ++ rtol ** RMax(RAbs(a), RAbs(b)))
=============================================================================
