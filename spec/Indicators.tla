----------------------------- MODULE Indicators -----------------------------
(* All indicators. *)
EXTENDS IndPoint, IndWindow, IndExtreme, IndRecursive, IndMomentum, IndVolume, IndRange, IndAdaptive

Valid(ind, o) == CASE ind \in PointNames -> PointValid(ind, o)
                   [] ind \in WindowNames -> WindowValid(ind, o)
                   [] ind \in ExtremeNames -> ExtremeValid(ind, o)
                   [] ind \in RecursiveNames -> RecursiveValid(ind, o)
                   [] ind \in MomentumNames -> MomentumValid(ind, o)
                   [] ind \in VolumeNames -> VolumeValid(ind, o)
                   [] ind \in RangeNames -> RangeValid(ind, o)
                   [] ind \in AdaptiveNames -> AdaptiveValid(ind, o)
Start(ind, o) == CASE ind \in PointNames -> PointStart(ind, o)
                   [] ind \in WindowNames -> WindowStart(ind, o)
                   [] ind \in ExtremeNames -> ExtremeStart(ind, o)
                   [] ind \in RecursiveNames -> RecursiveStart(ind, o)
                   [] ind \in MomentumNames -> MomentumStart(ind, o)
                   [] ind \in VolumeNames -> VolumeStart(ind, o)
                   [] ind \in RangeNames -> RangeStart(ind, o)
                   [] ind \in AdaptiveNames -> AdaptiveStart(ind, o)
InitState(ind, o) == CASE ind \in PointNames -> <<>>
                   [] ind \in WindowNames -> WindowInit(ind, o)
                   [] ind \in ExtremeNames -> ExtremeInit(ind, o)
                   [] ind \in RecursiveNames -> RecursiveInit(ind, o)
                   [] ind \in MomentumNames -> MomentumInit(ind, o)
                   [] ind \in VolumeNames -> VolumeInit(ind, o)
                   [] ind \in RangeNames -> RangeInit(ind, o)
                   [] ind \in AdaptiveNames -> AdaptiveInit(ind, o)
Step(ind, o, s, b, t) == CASE ind \in PointNames -> PointStep(ind, o, s, b, t)
                           [] ind \in WindowNames -> WindowStep(ind, o, s, b, t)
                   [] ind \in ExtremeNames -> ExtremeStep(ind, o, s, b, t)
                   [] ind \in RecursiveNames -> RecursiveStep(ind, o, s, b, t)
                   [] ind \in MomentumNames -> MomentumStep(ind, o, s, b, t)
                   [] ind \in VolumeNames -> VolumeStep(ind, o, s, b, t)
                   [] ind \in RangeNames -> RangeStep(ind, o, s, b, t)
                   [] ind \in AdaptiveNames -> AdaptiveStep(ind, o, s, b, t)

(* the magnitude outputs may have, given that of the inputs *)
OutScale(ind, m) == CASE ind = "var" -> m ** m
                      [] ind \in {"stoch", "kst", "copp", "volatility", "mass", "ultosc", "rvi", "rmi", "smi", "cmo", "stochrsi", "cvi"} -> RMax(m, 100)   \* percentages
                      [] OTHER -> m

(* How much more rounding the n-th bar of a history may carry: a running weighted sum integrates the error of a running sum, *)
(* and rvi squares the small difference of two such sums.                                                                    *)
Slack(ind, n) == LET k == 1 + n \div 100 IN IF ind = "rvi" THEN k * k * k ELSE k
(* Indicators whose outputs depend on the bars of their window alone: what came before Start + 1 bars ago does not matter. *)
FiniteMemory == PointNames \cup (WindowNames \ {"posc"}) \cup (ExtremeNames \ {"mhlma", "stochrsi", "mesastoch", "fisher"})
                \cup {"cmo", "er", "copp", "ultosc", "ao"} \cup {"cmf", "emv", "vosc"} \cup {"vi", "abands"}
=============================================================================
