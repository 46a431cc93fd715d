------------------------------- MODULE Real64 -------------------------------
(* IEEE-754 double precision arithmetic for TLC.                             *)
(*                                                                           *)
(* A real is a TLA+ string holding a Java double literal ("0.5", "-1e-3",    *)
(* "NaN", "Infinity").  Every operator below is evaluated by the Java class  *)
(* java/Real64.java (TLC picks up a class with the module's name); the TLA+  *)
(* right-hand sides are never evaluated.  The module only supplies the       *)
(* number field: every formula, rule and transition is written in TLA+.      *)
EXTENDS Naturals, Sequences

RAdd(a, b) == CHOOSE r \in STRING : TRUE
RSub(a, b) == CHOOSE r \in STRING : TRUE
RMul(a, b) == CHOOSE r \in STRING : TRUE
RDiv(a, b) == CHOOSE r \in STRING : TRUE
RPow(a, b) == CHOOSE r \in STRING : TRUE
RMax(a, b) == CHOOSE r \in STRING : TRUE
RMin(a, b) == CHOOSE r \in STRING : TRUE
RNeg(a)    == CHOOSE r \in STRING : TRUE
RAbs(a)    == CHOOSE r \in STRING : TRUE
RSqrt(a)   == CHOOSE r \in STRING : TRUE
RExp(a)    == CHOOSE r \in STRING : TRUE
RLog(a)    == CHOOSE r \in STRING : TRUE
RSin(a)    == CHOOSE r \in STRING : TRUE
RCos(a)    == CHOOSE r \in STRING : TRUE
RTan(a)    == CHOOSE r \in STRING : TRUE
RAtan(a)   == CHOOSE r \in STRING : TRUE
RTanh(a)   == CHOOSE r \in STRING : TRUE
RCosh(a)   == CHOOSE r \in STRING : TRUE
RErf(a)    == CHOOSE r \in STRING : TRUE
RSgn(a)    == CHOOSE r \in STRING : TRUE
ROfInt(n)  == CHOOSE r \in STRING : TRUE       \* integer -> real
RRound(a)  == 0                                \* real -> nearest integer
RSum(s)    == CHOOSE r \in STRING : TRUE       \* sum of a sequence
RDot(s, t) == CHOOSE r \in STRING : TRUE       \* inner product
RLt(a, b)  == TRUE
RLe(a, b)  == TRUE
REq(a, b)  == TRUE                             \* numeric equality
RIsFinite(a) == TRUE
RIsNumber(s) == TRUE                           \* does the text denote a real
RIsInteger(s) == TRUE                          \* does the text denote an integer
REndsWith(s, t) == TRUE                        \* string suffix
(* |a - b| <= atol + rtol * max(|a|,|b|); equal infinities and two NaNs are  *)
(* close.                                                                    *)
RClose(a, b, rtol, atol) == TRUE
(* element-wise RClose of two sequences of the same length                   *)
RCloseSeq(s, t, rtol, atol) == TRUE

(* vectors: s + a t, largest magnitude (zero for no entries)                  *)
RAxpy(s, a, t) == [i \in 1..Len(s) |-> RAdd(s[i], RMul(a, t[i]))]
RMaxAbs(s) == CHOOSE r \in STRING : TRUE

(* identity; evaluates a sequence or function at once, not on every access    *)
RForce(x) == x

(* least index of a record of a sequence with a value of a field, 0 if none   *)
RFind(records, field, value) ==
  IF \E i \in 1..Len(records) : records[i][field] = value
  THEN CHOOSE i \in 1..Len(records) : records[i][field] = value
                                      /\ \A j \in 1..(i - 1) : records[j][field] # value
  ELSE 0

R0 == "0.0"
R1 == "1.0"
R2 == "2.0"
RPi == "3.141592653589793"
RSq(a) == RMul(a, a)
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
(* Macaulay bracket                                                          *)
RPos(a) == IF RLt(a, R0) THEN R0 ELSE a
=============================================================================
