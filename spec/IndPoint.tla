------------------------------ MODULE IndPoint ------------------------------
(* Indicators of one bar, or of bars at fixed distances. *)
EXTENDS IndBase

PointNames == {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "floor", "ln", "log10", "round", "sin",
  "sinh", "sqrt", "tan", "tanh", "todeg", "torad", "trunc", "add", "sub", "mul", "div", "avgprice", "medprice",
  "typprice", "wcprice", "bop", "marketfi", "crossany", "crossover", "lag", "mom", "roc", "rocr"}

PointValid(ind, o) ==
  CASE ind = "lag" -> P(o, 1) >= 0
    [] ind \in {"mom", "roc", "rocr"} -> P(o, 1) >= 1
    [] OTHER -> TRUE
PointStart(ind, o) ==
  CASE ind \in {"lag", "mom", "roc", "rocr"} -> P(o, 1)
    [] ind \in {"crossany", "crossover"} -> 1
    [] OTHER -> 0

Unary(ind, x) ==
  CASE ind = "abs"   -> Abs(x)
    [] ind = "acos"  -> Acos(x)
    [] ind = "asin"  -> Asin(x)
    [] ind = "atan"  -> Atan(x)
    [] ind = "ceil"  -> Ceil(x)
    [] ind = "cos"   -> Cos(x)
    [] ind = "cosh"  -> Cosh(x)
    [] ind = "exp"   -> Exp(x)
    [] ind = "floor" -> Floor(x)
    [] ind = "ln"    -> Ln(x)
    [] ind = "log10" -> Log10(x)
    [] ind = "round" -> Floor(x ++ R("0.5"))
    [] ind = "sin"   -> Sin(x)
    [] ind = "sinh"  -> Sinh(x)
    [] ind = "sqrt"  -> Sqrt(x)
    [] ind = "tan"   -> Tan(x)
    [] ind = "tanh"  -> Tanh(x)
    [] ind = "todeg" -> x ** (180 // Pi)
    [] ind = "torad" -> x ** (Pi // 180)
    [] ind = "trunc" -> Trunc(x)
UnaryNames == {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "floor", "ln", "log10", "round", "sin",
  "sinh", "sqrt", "tan", "tanh", "todeg", "torad", "trunc"}

(* a crosses b between the two bars *)
CrossUp(a0, b0, a1, b1) == a1 \succ b1 /\ a0 \preceq b0
One(p) == IF p THEN 1 ELSE 0

PointStep(ind, o, s, b, t) ==
  LET x == b[1][t]
      y == b[2][t]
      old == b[1][t - P(o, 1)]
  IN
  CASE ind \in UnaryNames -> Out1(s, Unary(ind, x))
    [] ind = "add" -> Out1(s, x ++ y)
    [] ind = "sub" -> Out1(s, x -- y)
    [] ind = "mul" -> Out1(s, x ** y)
    [] ind = "div" -> Out1(s, x // y)
    [] ind = "avgprice" -> Out1(s, SumSeq(<<x, y, b[3][t], b[4][t]>>) // 4)
    [] ind = "medprice" -> Out1(s, (x ++ y) // 2)
    [] ind = "typprice" -> Out1(s, SumSeq(<<x, y, b[3][t]>>) // 3)
    [] ind = "wcprice"  -> Out1(s, SumSeq(<<x, y, b[3][t], b[3][t]>>) // 4)
    [] ind = "bop" ->   \* open high low close
         Out1(s, IF y \preceq b[3][t] THEN 0 ELSE (b[4][t] -- x) // (y -- b[3][t]))
    [] ind = "marketfi" -> Out1(s, Safe(x -- y, b[3][t]))
    [] ind \in {"crossany", "crossover"} ->
         IF t = 1 THEN Quiet(s)
         ELSE LET x0 == b[1][t-1]  y0 == b[2][t-1]
              IN  Out1(s, One(CrossUp(x0, y0, x, y) \/ (ind = "crossany" /\ CrossUp(y0, x0, y, x))))
    [] ind \in {"lag", "mom", "roc", "rocr"} ->
         IF t <= P(o, 1) THEN Quiet(s)
         ELSE CASE ind = "lag"  -> Out1(s, old)
                [] ind = "mom"  -> Out1(s, x -- old)
                [] ind = "roc"  -> Out1(s, Safe(x -- old, old))
                [] ind = "rocr" -> Out1(s, Safe(x, old))
=============================================================================
