-------------------------------- MODULE Real --------------------------------
(* Real arithmetic for the definitions of the indicators.                    *)
(*                                                                           *)
(* TLC evaluates every operator of this module with java/tind/RealOps.java;  *)
(* the definitions given here only fix arity (and meaning, informally).  An  *)
(* integer is accepted wherever a real is.  A real carries an estimate of    *)
(* its own rounding noise (see RealValue.java): two correct programs may     *)
(* differ by that much, and a decision that falls within the noise is        *)
(* "open": its result is Unk, with which every value agrees.                 *)
EXTENDS Naturals, Integers, Sequences

LOCAL Opaque(x) == CHOOSE y : y = x

R(s)  == Opaque(<<"literal", s>>)             \* R("0.5")
Unk   == Opaque("unknown")                    \* the value left open
Pi    == Opaque("pi")
NaN   == Opaque("nan")
a ++ b == Opaque(<<"add", a, b>>)
a -- b == Opaque(<<"sub", a, b>>)
a ** b == Opaque(<<"mul", a, b>>)
a // b == Opaque(<<"div", a, b>>)
Neg(a)   == Opaque(<<"neg", a>>)
Abs(a)   == Opaque(<<"abs", a>>)
Sqrt(a)  == Opaque(<<"sqrt", a>>)             \* zero for a zero blurred by noise
Sin(a)   == Opaque(<<"sin", a>>)
Cos(a)   == Opaque(<<"cos", a>>)
Tan(a)   == Opaque(<<"tan", a>>)
Asin(a)  == Opaque(<<"asin", a>>)
Acos(a)  == Opaque(<<"acos", a>>)
Atan(a)  == Opaque(<<"atan", a>>)
Sinh(a)  == Opaque(<<"sinh", a>>)
Cosh(a)  == Opaque(<<"cosh", a>>)
Tanh(a)  == Opaque(<<"tanh", a>>)
Exp(a)   == Opaque(<<"exp", a>>)
Ln(a)    == Opaque(<<"ln", a>>)
Log10(a) == Opaque(<<"log10", a>>)
Pow(a, b) == Opaque(<<"pow", a, b>>)
Floor(a) == Opaque(<<"floor", a>>)
Ceil(a)  == Opaque(<<"ceil", a>>)
Trunc(a) == Opaque(<<"trunc", a>>)            \* towards zero
RoundHalfAway(a) == Opaque(<<"round", a>>)
ToInt(a) == CHOOSE n \in Int : n = a          \* the TLA+ integer, truncating
OpenInt  == -2147483647 - 1                   \* ToInt of an open decision

(* Comparisons of nominal values: for numbers that carry no noise. *)
a \prec b   == CHOOSE x \in BOOLEAN : x = Opaque(<<"lt", a, b>>)
a \preceq b == CHOOSE x \in BOOLEAN : x = Opaque(<<"le", a, b>>)
a \succ b   == CHOOSE x \in BOOLEAN : x = Opaque(<<"gt", a, b>>)
a \succeq b == CHOOSE x \in BOOLEAN : x = Opaque(<<"ge", a, b>>)
a \doteq b  == CHOOSE x \in BOOLEAN : x = Opaque(<<"eq", a, b>>)
Clear(a, b) == CHOOSE x \in BOOLEAN : x = Opaque(<<"clear", a, b>>)  \* the noise does not blur the comparison

(* Comparisons that yield Unk when blurred, unless both results agree. *)
IfLt(a, b, x, y) == IF a \prec b THEN x ELSE y
IfLe(a, b, x, y) == IF a \preceq b THEN x ELSE y
IfEq(a, b, x, y) == IF a \doteq b THEN x ELSE y

RMax(a, b) == IF a \prec b THEN b ELSE a
RMin(a, b) == IF a \prec b THEN a ELSE b

SumSeq(s)   == Opaque(<<"sum", s>>)
Dot(s, w)   == Opaque(<<"dot", s, w>>)        \* of equal lengths
MaxSeq(s)   == Opaque(<<"max", s>>)
MinSeq(s)   == Opaque(<<"min", s>>)
SortSeqR(s) == Opaque(<<"sort", s>>)          \* ascending
Fuzz(a, b)  == Opaque(<<"fuzz", a, b>>)       \* a, with b added to its noise

Agrees(spec, got, scale) == CHOOSE x \in BOOLEAN : x = Opaque(<<"agrees", spec, got, scale>>)
Pair(spec, p, q, scale) == CHOOSE x \in BOOLEAN : x = Opaque(<<"pair", spec, p, q, scale>>)  \* p and q may both be implementations of spec
IsOpen(a)   == CHOOSE x \in BOOLEAN : x = Opaque(<<"open", a>>)
IsFiniteR(a) == CHOOSE x \in BOOLEAN : x = Opaque(<<"finite", a>>)
SameBits(a, b) == CHOOSE x \in BOOLEAN : x = Opaque(<<"same", a, b>>)
Tol(spec, scale) == Opaque(<<"tolerance", spec, scale>>)
=============================================================================
