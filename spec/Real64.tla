------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Real numbers for the specifications of this directory.  TLC has 32 bit  *)
(* integers only; like Naturals and Integers, these operators are          *)
(* evaluated by a Java class of the module's name (lib/java/Real64.java),  *)
(* with IEEE doubles.  An operand is a real, an integer, or the decimal    *)
(* text of a real, as the JSON observations of the implementation have it. *)
(* The definitions here only give the signatures.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

LOCAL Undefined == CHOOSE x : x \notin BOOLEAN

R(a) == Undefined
RAdd(a, b) == Undefined
RSub(a, b) == Undefined
RMul(a, b) == Undefined
RDiv(a, b) == Undefined
RNeg(a) == Undefined
RAbs(a) == Undefined
RMin(a, b) == Undefined
RMax(a, b) == Undefined
RLt(a, b) == Undefined
RLe(a, b) == Undefined
REq(a, b) == Undefined           \* NaN is equal to NaN
RNear(a, b, tol) == Undefined    \* |a - b| <= tol, or both NaN
RIsNaN(a) == Undefined
RSqrt(a) == Undefined
RSin(a) == Undefined
RCos(a) == Undefined
RTan(a) == Undefined
RAtan(a) == Undefined
RAtan2(a, b) == Undefined
RAsin(a) == Undefined
RAcos(a) == Undefined
RExp(a) == Undefined
RLog(a) == Undefined
RPow(a, b) == Undefined
RRint(a) == Undefined            \* nearest integer, ties to even, as a real
RFloorInt(a) == Undefined        \* floor, as an integer
RRoundInt(a) == Undefined        \* nearest integer, as an integer
RText(a) == Undefined            \* decimal text

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)

RPi == "3.141592653589793"
Deg(a) == (a ** RPi) // 180

RECURSIVE RSumUpTo(_, _)
RSumUpTo(s, n) == IF n = 0 THEN R(0) ELSE RSumUpTo(s, n - 1) ++ s[n]
(* the sum of a sequence of reals *)
RSum(s) == RSumUpTo(s, Len(s))
  
=============================================================================
