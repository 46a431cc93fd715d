----------------------------- MODULE LineSearch -----------------------------
(* The backtracking line search of the Newton iterations: a state machine    *)
(* that is started with the merit value of the current iterate, judges a     *)
(* trial step length and proposes the next, shorter one.                     *)
(*                                                                           *)
(* Dennis and Schnabel, Numerical methods for unconstrained optimization and *)
(* nonlinear equations, algorithm A6.3.1: the merit function is half the     *)
(* squared residual norm, its slope at the start is minus twice the start    *)
(* value; the first reduction minimises the quadratic through the start      *)
(* value, the start slope and the rejected value, later ones minimise the    *)
(* cubic through the two last rejected values as well.                       *)
EXTENDS Real64

Merit(residual) == RMul("0.5", RSq(residual))

(* a line search s: nmax and alpha are its settings, the rest its state      *)
LSNew(nmax, alpha) ==
  [nmax |-> nmax, alpha |-> alpha, n |-> 0, f0 |-> R0,
   lam |-> R1, flast |-> R0]

(* a new search forgets everything about the one before                      *)
LSReinit(s, f0) == [s EXCEPT !.n = 0, !.f0 = f0, !.lam = R1, !.flast = R0]

Slope(s) == RNeg(RMul(R2, s.f0))

Armijo(s, f, lam) ==
  RLe(f, RAdd(s.f0, RMul(s.alpha, RMul(lam, Slope(s)))))

(* accepted: sufficient decrease, or the permitted reductions are exceeded   *)
LSAccepts(s, f, lam) == s.n > s.nmax \/ Armijo(s, f, lam)

Clamp(x, lo, hi) == IF RLt(x, lo) THEN lo ELSE IF RGt(x, hi) THEN hi ELSE x

Quadratic(s, f) ==
  RDiv(RNeg(RDiv(Slope(s), R2)), RSub(RSub(f, s.f0), Slope(s)))

(* minimiser of the cubic a x^3 + b x^2 + slope x + f0 through (l1,f1) and   *)
(* (l2,f2), in the form which also covers a = 0                              *)
Cubic(s, f1, l1, f2, l2) ==
  LET v1 == RSub(RSub(f1, s.f0), RMul(l1, Slope(s)))
      v2 == RSub(RSub(f2, s.f0), RMul(l2, Slope(s)))
      q1 == RDiv(v1, RSq(l1))
      q2 == RDiv(v2, RSq(l2))
      a  == RDiv(RSub(q1, q2), RSub(l1, l2))
      b  == RDiv(RSub(RMul(l1, q2), RMul(l2, q1)), RSub(l1, l2))
      disc == RSub(RSq(b), RMul("3.0", RMul(a, Slope(s))))
  IN  RDiv(RNeg(Slope(s)), RAdd(b, RSqrt(RMax(disc, R0))))

(* the step length proposed after lam was rejected with merit value f        *)
LSNext(s, f, lam) ==
  IF s.n = 0
  THEN Clamp(Quadratic(s, f), "0.1", "0.5")
  ELSE Clamp(Cubic(s, f, lam, s.flast, s.lam),
             RMul("0.1", lam), RMul("0.5", lam))

LSReduce(s, f, lam) == [s EXCEPT !.n = @ + 1, !.lam = lam, !.flast = f]
=============================================================================
