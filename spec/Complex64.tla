------------------------------ MODULE Complex64 ------------------------------
(* Complex numbers over Real64, as records [re, im].                         *)
EXTENDS Real64
CX(re, im)   == [re |-> re, im |-> im]
CReal(x)     == CX(x, RZero)
CAdd(u, v)   == CX(u.re ++ v.re, u.im ++ v.im)
CSub(u, v)   == CX(u.re -- v.re, u.im -- v.im)
CScale(u, k) == CX(u.re ** k, u.im ** k)
CMul(u, v)   == CX((u.re ** v.re) -- (u.im ** v.im), (u.re ** v.im) ++ (u.im ** v.re))
CAbs2(u)     == RSq(u.re) ++ RSq(u.im)
CAbs(u)      == RSqrt(CAbs2(u))
CDiv(u, v)   == LET n == CAbs2(v)
                    w == CMul(u, CX(v.re, RNeg(v.im)))
                IN  CX(w.re // n, w.im // n)
(* Principal square root for numbers with positive real part.                *)
CSqrt(u)     == LET a == RSqrt((CAbs(u) ++ u.re) // RTwo)
                IN  CX(a, u.im // (RTwo ** a))
CClose(u, v, atol, rtol) ==
  CAbs(CSub(u, v)) \preceq (atol ++ rtol ** RMax(CAbs(u), CAbs(v)))
=============================================================================
