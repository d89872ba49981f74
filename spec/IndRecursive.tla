---------------------------- MODULE IndRecursive ----------------------------
(* Recursive averages and filters: recurrence, coefficients and seed.         *)
EXTENDS IndBase

RecursiveNames == {"ema", "dema", "tema", "trix", "wilders", "zlema", "hfema", "ehma", "t3", "gf1", "gf2", "gf3", "gf4", "bf2", "bf3",
  "ssmooth", "roof", "rema", "rmta", "rmf", "lf", "ahma", "decay", "edecay", "mgdyn", "emsd", "evwma"}

MaxR(a, b) == IF a < b THEN b ELSE a
CeilR(x) == ToInt(Ceil(x))

RecursiveValid(ind, o) ==
  CASE ind \in {"gf1", "gf2", "gf3", "gf4", "bf2", "bf3"} -> P(o, 1) >= 2 /\ P(o, 1) <= 40 /\ P(o, 1) % 2 = 0
    [] ind = "hfema" -> P(o, 1) >= 1 /\ P(o, 2) >= 1 /\ 0 \preceq o[3]
    [] ind \in {"t3", "rema"} -> 1 \preceq o[1] /\ 0 \preceq o[2]
    [] ind = "rmf"   -> 1 \preceq o[1] /\ P(o, 2) >= 1 /\ P(o, 2) % 2 = 1
    [] ind = "lf"    -> 0 \preceq o[1]
    [] ind = "emsd"  -> P(o, 1) >= 1 /\ P(o, 2) >= 1
    [] ind = "evwma" -> P(o, 1) >= 1 /\ 0 \prec o[2]
    [] ind \in {"ssmooth", "roof", "decay", "edecay", "mgdyn"} -> TRUE
    [] OTHER -> P(o, 1) >= 1

Lag(p) == (p - 1) \div 2

RecursiveStart(ind, o) ==
  CASE ind = "dema" -> 2 * (P(o, 1) - 1)
    [] ind = "tema" -> 3 * (P(o, 1) - 1)
    [] ind = "trix" -> 3 * (P(o, 1) - 1) + 1
    [] ind \in {"wilders", "rmta", "emsd", "evwma"} -> P(o, 1) - 1
    [] ind = "zlema" -> MaxR(Lag(P(o, 1)) - 1, 0)
    [] ind = "hfema" -> 2 * P(o, 2)
    [] ind = "rmf" -> P(o, 2) - 1
    [] ind = "bf2" -> CeilR((2 ** o[1]) // (R("3.1415") ** R("3.1415")))
    [] ind = "bf3" -> CeilR((3 ** o[1]) // (R("3.1415") ** R("3.1415")))
    [] OTHER -> 0

(* Coefficients of Ehlers' Gaussian and Butterworth filters for the critical periods 2, 4, .. 40 *)
GF1 == [
  A1 |-> <<"0.171573", "0.267949", "0.381966", "0.473398", "0.544113", "0.599280", "0.643104", "0.678584", "0.707814", "0.732270", "0.753010", "0.770808", "0.786240", "0.799744", "0.811657", "0.822241", "0.831706", "0.840220", "0.847918", "0.854911">>,
  B0 |-> <<"0.828427", "0.732051", "0.618034", "0.526602", "0.455887", "0.400720", "0.356896", "0.321416", "0.292186", "0.267730", "0.246990", "0.229192", "0.213760", "0.200256", "0.188343", "0.177759", "0.168294", "0.159780", "0.152082", "0.145089">>]
GF2 == [
  A1 |-> <<"0.172854", "0.299460", "0.479080", "0.647112", "0.791668", "0.913103", "1.014847", "1.100556", "1.173357", "1.235757", "1.289719", "1.336777", "1.378133", "1.414738", "1.447346", "1.476567", "1.502894", "1.526729", "1.548408", "1.568205">>,
  A2 |-> <<"-0.007470", "-0.022419", "-0.057379", "-0.104688", "-0.156684", "-0.208439", "-0.257479", "-0.302806", "-0.344192", "-0.381774", "-0.415844", "-0.446743", "-0.474813", "-0.500371", "-0.523703", "-0.545063", "-0.564672", "-0.582726", "-0.599392", "-0.614817">>,
  B0 |-> <<"0.834615", "0.722959", "0.578300", "0.457577", "0.365017", "0.295336", "0.242632", "0.202250", "0.170835", "0.146017", "0.126125", "0.109966", "0.096680", "0.085633", "0.076357", "0.068496", "0.061779", "0.055996", "0.050984", "0.046612">>]
GF3 == [
  A1 |-> <<"0.173094", "0.312814", "0.529009", "0.749259", "0.951680", "1.130321", "1.285644", "1.420251", "1.537154", "1.639147", "1.728632", "1.807607", "1.877714", "1.940297", "1.996460", "2.047111", "2.093000", "2.134754", "2.172895", "2.207865">>,
  A2 |-> <<"-0.009987", "-0.032617", "-0.093283", "-0.187130", "-0.301899", "-0.425875", "-0.550960", "-0.672371", "-0.787614", "-0.895601", "-0.996056", "-1.089148", "-1.175270", "-1.254918", "-1.328618", "-1.396887", "-1.460217", "-1.519058", "-1.573824", "-1.624889">>,
  A3 |-> <<"0.000192", "0.001134", "0.005483", "0.015579", "0.031923", "0.053486", "0.078704", "0.106104", "0.134520", "0.163114", "0.191313", "0.218750", "0.245202", "0.270546", "0.294726", "0.317731", "0.339582", "0.360313", "0.379973", "0.398615">>,
  B0 |-> <<"0.836701", "0.718670", "0.558792", "0.422292", "0.318295", "0.242068", "0.186612", "0.146016", "0.115940", "0.093340", "0.076111", "0.062791", "0.052354", "0.044075", "0.037432", "0.032045", "0.027635", "0.023991", "0.020956", "0.018409">>]
GF4 == [
  A1 |-> <<"0.173178", "0.320247", "0.559812", "0.817734", "1.066023", "1.293310", "1.496649", "1.676861", "1.836187", "1.977213", "2.102418", "2.214012", "2.313903", "2.403709", "2.484797", "2.558316", "2.625237", "2.686378", "2.742435", "2.794000">>,
  A2 |-> <<"-0.011247", "-0.038459", "-0.117521", "-0.250758", "-0.426152", "-0.627244", "-0.839984", "-1.054449", "-1.264344", "-1.466015", "-1.657560", "-1.838193", "-2.007804", "-2.166681", "-2.315331", "-2.454368", "-2.584450", "-2.706235", "-2.820356", "-2.927413">>,
  A3 |-> <<"0.000325", "0.002053", "0.010965", "0.034176", "0.075715", "0.135204", "0.209527", "0.294694", "0.386929", "0.483104", "0.580814", "0.678297", "0.774311", "0.868012", "0.958854", "1.046508", "1.130799", "1.211662", "1.289107", "1.363199">>,
  A4 |-> <<"-0.000004", "-0.000041", "-0.000384", "-0.001747", "-0.005045", "-0.010929", "-0.019599", "-0.030885", "-0.044405", "-0.059700", "-0.076320", "-0.093860", "-0.111980", "-0.130403", "-0.148910", "-0.167331", "-0.185538", "-0.203436", "-0.220956", "-0.238049">>,
  B0 |-> <<"0.837747", "0.716200", "0.547128", "0.400596", "0.289459", "0.209659", "0.153408", "0.113779", "0.085632", "0.065397", "0.050648", "0.039744", "0.031571", "0.025363", "0.020589", "0.016875", "0.013953", "0.011632", "0.009770", "0.008263">>]
BF2 == [
  A1 |-> <<"-0.131366", "0.292597", "0.704171", "0.975372", "1.158161", "1.287652", "1.383531", "1.457120", "1.515266", "1.562309", "1.601119", "1.633667", "1.661342", "1.685157", "1.705862", "1.724025", "1.740086", "1.754388", "1.767204", "1.778753">>,
  A2 |-> <<"-0.011770", "-0.108489", "-0.227470", "-0.329377", "-0.411296", "-0.476938", "-0.530147", "-0.573914", "-0.610438", "-0.641324", "-0.667753", "-0.690607", "-0.710555", "-0.728112", "-0.743678", "-0.757571", "-0.770045", "-0.781305", "-0.791520", "-0.800827">>,
  B0 |-> <<"0.285784", "0.203973", "0.130825", "0.088501", "0.063284", "0.047322", "0.036654", "0.029198", "0.023793", "0.019754", "0.016658", "0.014235", "0.012303", "0.010739", "0.009454", "0.008386", "0.007490", "0.006729", "0.006079", "0.005518">>,
  B1 |-> <<"0.571568", "0.407946", "0.261650", "0.177002", "0.126567", "0.094643", "0.073308", "0.058397", "0.047586", "0.039507", "0.033317", "0.028470", "0.024607", "0.021477", "0.018908", "0.016773", "0.014980", "0.013459", "0.012158", "0.011037">>,
  B2 |-> <<"0.285784", "0.203973", "0.130825", "0.088501", "0.063284", "0.047322", "0.036654", "0.029198", "0.023793", "0.019754", "0.016658", "0.014235", "0.012303", "0.010739", "0.009454", "0.008386", "0.007490", "0.006729", "0.006079", "0.005518">>]
BF3 == [
  A1 |-> <<"-0.336246", "0.398405", "1.080990", "1.505892", "1.783327", "1.976163", "2.117205", "2.224560", "2.308883", "2.376806", "2.432658", "2.479376", "2.519020", "2.553078", "2.582648", "2.608560", "2.631451", "2.651819", "2.670059", "2.686486">>,
  A2 |-> <<"-0.026816", "-0.247486", "-0.607116", "-0.934652", "-1.200263", "-1.412114", "-1.582459", "-1.721388", "-1.836396", "-1.932941", "-2.015013", "-2.085571", "-2.146834", "-2.200500", "-2.247883", "-2.290012", "-2.327708", "-2.361631", "-2.392315", "-2.420202">>,
  A3 |-> <<"0.001867", "0.043214", "0.123145", "0.207880", "0.284610", "0.350920", "0.407548", "0.455938", "0.497514", "0.533488", "0.564848", "0.592385", "0.616731", "0.638395", "0.657784", "0.675232", "0.691011", "0.705347", "0.718425", "0.730403">>,
  B0 |-> <<"0.170149", "0.100733", "0.050373", "0.027610", "0.016541", "0.010629", "0.007213", "0.005111", "0.003750", "0.002831", "0.002188", "0.001726", "0.001385", "0.001128", "0.000931", "0.000778", "0.000656", "0.000558", "0.000479", "0.000414">>,
  B1 |-> <<"0.510448", "0.302200", "0.151118", "0.082830", "0.049622", "0.031887", "0.021640", "0.015334", "0.011250", "0.008492", "0.006565", "0.005179", "0.004156", "0.003385", "0.002794", "0.002333", "0.001967", "0.001674", "0.001437", "0.001242">>,
  B2 |-> <<"0.510448", "0.302200", "0.151118", "0.082830", "0.049622", "0.031887", "0.021640", "0.015334", "0.011250", "0.008492", "0.006565", "0.005179", "0.004156", "0.003385", "0.002794", "0.002333", "0.001967", "0.001674", "0.001437", "0.001242">>,
  B3 |-> <<"0.170149", "0.100733", "0.050373", "0.027610", "0.016541", "0.010629", "0.007213", "0.005111", "0.003750", "0.002831", "0.002188", "0.001726", "0.001385", "0.001128", "0.000931", "0.000778", "0.000656", "0.000558", "0.000479", "0.000414">>]
Coef(tab, o) == R(tab[P(o, 1) \div 2])

RecursiveInit(ind, o) ==
  CASE ind \in {"dema", "tema", "trix"} -> <<0, 0, 0>>
    [] ind = "hfema" -> [ema |-> 0, q |-> <<>>]
    [] ind = "ehma" -> <<0, 0, 0>>
    [] ind = "t3" -> <<0, 0, 0, 0, 0, 0>>
    [] ind \in {"gf1", "gf2", "gf3", "gf4"} -> <<0, 0, 0, 0>>                 \* previous outputs, newest first
    [] ind \in {"bf2", "bf3"} -> [f |-> <<0, 0, 0>>, g |-> <<0, 0, 0>>]
    [] ind = "ssmooth" -> [x |-> 0, f |-> <<0, 0>>]
    [] ind = "roof" -> [x |-> <<0, 0>>, h |-> <<0, 0>>, f |-> <<0, 0>>]
    [] ind \in {"rema", "lf"} -> <<0, 0, 0, 0>>
    [] ind = "rmta" -> <<0, 0>>
    [] ind = "ahma" -> <<>>                                                    \* the last p outputs
    [] ind = "emsd" -> [s1 |-> 0, s2 |-> 0, ema |-> 0]
    [] OTHER -> 0

MedianOf(q) == SortSeqR(q)[(Len(q) \div 2) + 1]
MadLimit(q, threshold) == LET m == MedianOf(q) IN threshold ** R("1.4826") ** MedianOf([i \in 1..Len(q) |-> Abs(q[i] -- m)])

Gd(e1, e2, v) == (e1 ** (1 ++ v)) -- (e2 ** v)

(* super smoother with a critical period of 10 bars *)
PiR == R("3.14159")
FA1 == Exp(Neg((R("1.414") ** PiR) // 10))
FC2 == (2 ** FA1) ** Cos((R("1.414") ** PiR) // 10)
FC3 == Neg(FA1 ** FA1)
FC1 == (1 -- FC2) -- FC3
Smoother(x, x1, f) == ((FC1 ** ((x ++ x1) // 2)) ++ (FC2 ** f[1])) ++ (FC3 ** f[2])
RoofAlpha == LET a == (R("1.414") ** PiR) // 48 IN ((Cos(a) ++ Sin(a)) -- 1) // Cos(a)

RmfAlpha(n) == LET a == (2 ** Pi) // n IN ((Cos(a) ++ Sin(a)) -- 1) // Cos(a)

RecursiveStep(ind, o, s, b, t) ==
  LET x == b[1][t]
      p == P(o, 1)
      k == EmaK(p)
      Seeded(prev, kk) == IF t = 1 THEN x ELSE Smooth(prev, x, kk)
      From(start, z, y) == IF t <= start THEN Quiet(z) ELSE Out1(z, y)
  IN
  CASE ind = "ema" -> LET e == Seeded(s, k) IN Out1(e, e)
    [] ind \in {"dema", "tema", "trix"} ->
         LET e1 == Seeded(s[1], k)
             e2 == IF t <= p THEN e1 ELSE Smooth(s[2], e1, k)
             e3 == IF t <= 2 * p - 1 THEN e2 ELSE Smooth(s[3], e2, k)
             z == <<e1, e2, e3>>
         IN  (CASE ind = "dema" -> From(2 * (p - 1), z, (2 ** e1) -- e2)
               [] ind = "tema" -> From(3 * (p - 1), z, ((3 ** e1) -- (3 ** e2)) ++ e3)
               [] ind = "trix" -> From(3 * (p - 1) + 1, z, IfEq(e3, 0, 0, ((e3 -- s[3]) // e3) ** 100)))
    [] ind = "wilders" -> IF t < p THEN Quiet(s)
         ELSE LET e == IF t = p THEN Mean(Win(b[1], t, p)) ELSE Smooth(s, x, 1 // p) IN Out1(e, e)
    [] ind = "zlema" -> LET l == Lag(p)  first == MaxR(l, 1) IN
         IF t < first THEN Quiet(s)
         ELSE LET e == IF t = first THEN x ELSE Smooth(s, (2 ** x) -- b[1][t - l], k) IN Out1(e, e)
    [] ind = "hfema" ->
         LET n == P(o, 2)
             e == Seeded(s.ema, k)
             z == [ema |-> e, q |-> Push(s.q, e, 2 * n + 1)]
         IN  IF t <= 2 * n THEN Quiet(z)
             ELSE LET m == MedianOf(z.q)  c == z.q[n + 1] IN Out1(z, IfLe(Abs(c -- m), MadLimit(z.q, o[3]), c, m))
    [] ind = "ehma" ->
         LET a == Seeded(s[1], 2 // ((p // 2) ++ 1))
             c == Seeded(s[2], k)
             d == (2 ** a) -- c
             e == IF t = 1 THEN d ELSE Smooth(s[3], d, 2 // (Sqrt(p) ++ 1))
         IN  Out1(<<a, c, e>>, e)
    [] ind = "t3" ->
         LET v == o[2]
             r == 2 // (P(o, 1) ++ 1)
             S(i, y) == IF t = 1 THEN x ELSE Smooth(s[i], y, r)
             e1 == S(1, x)   e2 == S(2, e1)  g1 == Gd(e1, e2, v)
             e3 == S(3, g1)  e4 == S(4, e3)  g2 == Gd(e3, e4, v)
             e5 == S(5, g2)  e6 == S(6, e5)  g3 == Gd(e5, e6, v)
         IN  Out1(<<e1, e2, e3, e4, e5, e6>>, g3)
    [] ind = "gf1" ->
         LET f == ((Coef(GF1.B0, o) ** x) ++ (Coef(GF1.A1, o) ** s[1])) // (Coef(GF1.B0, o) ++ Coef(GF1.A1, o))
         IN  Out1(<<f, s[1], s[2], s[3]>>, f)
    [] ind = "gf2" ->
         LET c == <<Coef(GF2.B0, o), Coef(GF2.A1, o), Coef(GF2.A2, o)>>
             f == Dot(c, <<x, s[1], s[2]>>) // SumSeq(c)
         IN  Out1(<<f, s[1], s[2], s[3]>>, f)
    [] ind = "gf3" ->
         LET c == <<Coef(GF3.B0, o), Coef(GF3.A1, o), Coef(GF3.A2, o), Coef(GF3.A3, o)>>
             f == Dot(c, <<x, s[1], s[2], s[3]>>) // SumSeq(c)
         IN  Out1(<<f, s[1], s[2], s[3]>>, f)
    [] ind = "gf4" ->
         LET c == <<Coef(GF4.B0, o), Coef(GF4.A1, o), Coef(GF4.A2, o), Coef(GF4.A3, o), Coef(GF4.A4, o)>>
             f == IF t <= 5 THEN x ELSE Dot(c, <<x, s[1], s[2], s[3], s[4]>>) // SumSeq(c)
         IN  Out1(<<f, s[1], s[2], s[3]>>, f)
    [] ind = "bf2" ->
         LET f == Dot(<<Coef(BF2.B0, o), Coef(BF2.B1, o), Coef(BF2.B2, o), Coef(BF2.A1, o), Coef(BF2.A2, o)>>,
                      <<x, s.g[1], s.g[2], s.f[1], s.f[2]>>)
             z == [f |-> <<f, s.f[1], s.f[2]>>, g |-> <<x, s.g[1], s.g[2]>>]
         IN  From(RecursiveStart(ind, o), z, f)
    [] ind = "bf3" ->
         LET f == Dot(<<Coef(BF3.B0, o), Coef(BF3.B1, o), Coef(BF3.B2, o), Coef(BF3.B3, o), Coef(BF3.A1, o), Coef(BF3.A2, o), Coef(BF3.A3, o)>>,
                      <<x, s.g[1], s.g[2], s.g[3], s.f[1], s.f[2], s.f[3]>>)
             z == [f |-> <<f, s.f[1], s.f[2]>>, g |-> <<x, s.g[1], s.g[2]>>]
         IN  From(RecursiveStart(ind, o), z, f)
    [] ind = "ssmooth" -> LET f == Smoother(x, s.x, s.f) IN Out1([x |-> x, f |-> <<f, s.f[1]>>], f)
    [] ind = "roof" ->
         LET a == RoofAlpha
             g == 1 -- (a // 2)
             h == 1 -- a
             hp == (((g ** g) ** ((x -- (2 ** s.x[1])) ++ s.x[2])) ++ ((2 ** h) ** s.h[1])) -- ((h ** h) ** s.h[2])
             f == Smoother(hp, s.h[1], s.f)
         IN  Out1([x |-> <<x, s.x[1]>>, h |-> <<hp, s.h[1]>>, f |-> <<f, s.f[1]>>], f)
    [] ind = "rema" ->
         LET a == 2 // (1 ++ o[1])
             l == o[2]
             f == IF t = 1 THEN x ELSE IF t = 2 THEN Smooth(s[1], x, a)
                  ELSE (((s[1] ** (1 ++ (2 ** l))) ++ (a ** (x -- s[1]))) -- (l ** s[2])) // (1 ++ l)
         IN  Out1(<<f, s[1], 0, 0>>, f)
    [] ind = "rmta" ->       \* state: the trend average and b
         LET beta == o[2]  alpha == 1 -- beta
             c == IF t = 1 THEN (beta ** x) ++ x ELSE (beta ** s[2]) ++ x
             f == IF t = 1 THEN (beta ** x) ++ (alpha ** (x ++ c)) ELSE (beta ** s[1]) ++ (alpha ** ((x ++ c) -- s[2]))
         IN  IF t < p THEN Quiet(<<f, c>>) ELSE Out1(<<f, c>>, IF p = 1 THEN Unk ELSE f)
    [] ind = "rmf" -> LET n == P(o, 2) IN
         IF t < n THEN Quiet(s)
         ELSE LET m == MedianOf(Win(b[1], t, n))
                  a == RmfAlpha(o[1])
                  f == IF t = n THEN m ELSE (a ** m) ++ ((1 -- a) ** s)
              IN  Out1(f, f)
    [] ind = "lf" ->
         LET g == o[1]
             l0 == ((1 -- g) ** x) ++ (g ** s[1])
             l1 == (s[1] ++ (g ** s[2])) -- (g ** l0)
             l2 == (s[2] ++ (g ** s[3])) -- (g ** l1)
             l3 == (s[3] ++ (g ** s[4])) -- (g ** l2)
         IN  Out1(<<l0, l1, l2, l3>>, SumSeq(<<l0, 2 ** l1, 2 ** l2, l3>>) // 6)
    [] ind = "ahma" ->
         LET f == IF t <= p THEN x ELSE Newest(s) ++ ((x -- ((Newest(s) ++ s[1]) // 2)) // p)
         IN  Out1(Push(s, f, p), f)
    [] ind = "decay" -> IF p = 0 THEN Out1(s, Unk) ELSE LET f == IF t = 1 THEN x ELSE RMax(x, s -- (1 // p)) IN Out1(f, f)
    [] ind = "edecay" -> IF p = 0 THEN Out1(s, Unk) ELSE LET f == IF t = 1 THEN x ELSE RMax(x, s ** (1 -- (1 // p))) IN Out1(f, f)
    [] ind = "mgdyn" ->
         LET r == x // s
             f == IF t = 1 THEN x ELSE s ++ ((x -- s) // (o[1] ** ((r ** r) ** (r ** r))))
         IN  Out1(f, f)
    [] ind = "emsd" ->
         LET old == IF t > p THEN b[1][t - p] ELSE 0
             a == (s.s1 ++ x) -- old
             c == (s.s2 ++ (x ** x)) -- (old ** old)
             v == (c // p) -- ((a // p) ** (a // p))
             e == IF t < p THEN 0 ELSE IF t = p THEN v ELSE Smooth(s.ema, v, EmaK(P(o, 2)))
             z == [s1 |-> a, s2 |-> c, ema |-> e]
         IN  IF t < p THEN Quiet(z) ELSE Out1(z, Sqrt(RMax0(e)))
    [] ind = "evwma" -> IF t < p THEN Quiet(s)
         ELSE LET n == SumSeq(Win(b[2], t, p))
                  w == b[2][t] // (o[2] ** n)
                  f == IF t = p THEN x ELSE IfEq(n, 0, 0, (s ** (1 -- w)) ++ (w ** x))
              IN  Out1(f, f)
=============================================================================
