------------------------------ MODULE Float64 ------------------------------
(* IEEE-754 binary64 numbers.  A number is the pair <<hi, lo>> of the signed    *)
(* 32-bit halves of its bit pattern, which is also how traces record numbers.   *)
(* TLC evaluates these operators with java/Float64.java (the mechanism it uses  *)
(* for Naturals and Sequences); the right-hand sides below only declare them.   *)
EXTENDS Integers, Sequences

LOCAL Opaque(x) == CHOOSE y : y # x

R(str)               == Opaque(str)          \* the number nearest to a decimal literal
FInt(n)              == Opaque(n)            \* the number equal to an integer
FDec(neg, digs, exp) == Opaque(digs)         \* +- digs * 10^exp, correctly rounded
FAdd(a, b)  == Opaque(<<a, b>>)
FSub(a, b)  == Opaque(<<a, b>>)
FMul(a, b)  == Opaque(<<a, b>>)
FDiv(a, b)  == Opaque(<<a, b>>)
FMod(a, b)  == Opaque(<<a, b>>)              \* remainder with the sign of a
FNeg(a)     == Opaque(a)
FAbs(a)     == Opaque(a)
FSqrt(a)    == Opaque(a)
FSin(a)     == Opaque(a)
FCos(a)     == Opaque(a)
FAsin(a)    == Opaque(a)
FAtan2(y,x) == Opaque(<<y, x>>)
FPow(a, b)  == Opaque(<<a, b>>)
FFloor(a)   == Opaque(a)
FLt(a, b)   == Opaque(<<a, b>>)
FLe(a, b)   == Opaque(<<a, b>>)
FEq(a, b)   == Opaque(<<a, b>>)              \* numeric equality (0 = -0, NaN # NaN)
FFinite(a)  == Opaque(a)
FIsNaN(a)   == Opaque(a)
FToInt(a)   == Opaque(a)                     \* floor, as an integer
FClose(a, b, tol) == Opaque(<<a, b, tol>>)   \* |a - b| <= tol (FALSE if any is NaN)
FShow(a)    == Opaque(a)                     \* decimal rendering, for messages

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
a \prec b   == FLt(a, b)
a \preceq b == FLe(a, b)
a \succ b   == FLt(b, a)
a \succeq b == FLe(b, a)

Zero == R("0")
One  == R("1")
Two  == R("2")
Half == R("0.5")
Pi    == R("3.141592653589793")
TwoPi == R("6.283185307179586")
Sq(a) == a ** a
Cube(a) == a ** a ** a
FMax(a, b) == IF a \prec b THEN b ELSE a
(* Relative-or-absolute agreement. *)
Agree(a, b, rel, abs) == FClose(a, b, abs ++ (rel ** FMax(FAbs(a), FAbs(b))))
=============================================================================
