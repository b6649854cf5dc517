-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: the histories recorded from the code are accepted only if  *)
(* every event satisfies the clauses of the property under check. Each     *)
(* event's verdict is printed; run with the environment variables TRACE    *)
(* (the recorded histories) and PROPERTY.                                  *)
(***************************************************************************)
EXTENDS AssemblyChecks, Json, IOUtils

Recorded == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.PROPERTY
VARIABLES sc, i

EventClauses(S, k) ==
    LET ev == S.events[k]
        D == PlaneAt(S, k)
        op == ev.op
        P == Property
    IN IF P = "P08" THEN WalkClauses(S, k)
       ELSE IF P = "P09" THEN KeptClauses(S, k)
       ELSE IF P = "P10" THEN DefaultClauses(S, k)
       ELSE IF P = "P18" THEN FileCodeClauses(S, k)
       ELSE IF P = "P21" THEN InvalidClauses(S, k)
       ELSE IF P = "P12" THEN TargetClauses(S, k, D, ev)
       ELSE IF P = "P13" THEN StallClauses(S, k, D, ev)
       ELSE IF P = "P14" THEN SavedClauses(S, k, D, ev)
       ELSE IF P = "P19" THEN SurfaceClauses(S, k, D, ev)
       ELSE IF P = "P25" THEN AssemblyClauses(S, k, ev)
       ELSE IF P = "P20" THEN CentreClauses(S, k, D, ev)
       ELSE IF ev.out # "ok" THEN << Answered(ev) >>
       ELSE CASE P = "P01" /\ op = "positions" -> PlacementClauses(D, ev)
              [] P = "P02" /\ op = "grid" -> SectionClauses(D, ev)
              [] P = "P03" /\ op = "grid" -> AirfoilClauses(D, ev)
              [] P = "P03" /\ op = "dist" -> << AlphaL0s(D, ev) >> \o LoadsClauses(D, ev, LoadNames)
              [] P = "P04" /\ op = "grid" -> ControlGridClauses(S, D, ev)
              [] P = "P04" /\ op \in {"solve", "dist", "llsolve"} -> LoadsClauses(D, ev, LoadNames)
              [] P = "P05" /\ op \in {"solve", "dist", "llsolve"} -> LoadsClauses(D, ev, LoadNames)
              [] P = "P22" /\ op \in {"solve", "llsolve"} -> LoadsClauses(D, ev, LoadNames)
              [] P = "P11" /\ op = "solve_pert" -> << C("asked as meant", PertAsked(D, ev)) >>
              [] P = "P11" /\ op \in {"derivs", "stab", "ctrl", "damp"} -> DerivClauses(S, k, D, ev)
              [] P = "P06" -> ViewClauses(S, k, D, ev)
              [] P = "P07" -> TransformClauses(S, k)
              [] P = "P15" /\ op = "dist" -> BladeClauses(D, ev)
              [] P = "P15" /\ op \in {"solve", "propsolve"} -> PropLoadClauses(S, k, D, ev, {"Thrust", "Torque", "FX", "FY", "FZ"})
              [] P = "P16" /\ op = "dist" /\ HasProps(D) -> OperatingClauses(D, ev)
              [] P = "P16" /\ op \in {"solve", "propsolve"} -> PropLoadClauses(S, k, D, ev, {"Thrust", "Torque"}) \o SameRateClauses(S, k)
              [] P = "P17" /\ op = "propsolve" -> SlipstreamClauses(S, k, D, ev)
              [] P = "P17" /\ op = "dist" -> InducedClauses(D, ev) \o (IF HasWings(D) THEN ImmersedClauses(S, k, D, ev) ELSE << >>)
              [] P = "P17" /\ op = "solve" -> ImmersedClauses(S, k, D, ev)
              [] P = "P24" /\ op \in {"solve", "propsolve"} -> PropLoadClauses(S, k, D, ev, PropLoadNames) \o ReversedClauses(S, k, D, ev)
              [] P = "P23" /\ op \in {"new", "grid"} -> ReferenceClauses(D, ev)
              [] OTHER -> << >>

Verdict(S, k) ==
    LET cs == EventClauses(S, k)
        bad == SelectSeq(cs, LAMBDA c : c[2] = "bad")
        skipped == SelectSeq(cs, LAMBDA c : c[2] = "skip")
    IN "EV|" \o ToString(<<S.id, k, S.events[k].op, Len(cs) - Len(skipped), Len(skipped), [j \in 1..Len(bad) |-> bad[j][1]]>>)

Init == sc \in 1..Len(Recorded) /\ i = 0
Next == /\ i < Len(Recorded[sc].events)
        /\ i' = i + 1
        /\ sc' = sc
        /\ PrintT(Verdict(Recorded[sc], i + 1))
=============================================================================
