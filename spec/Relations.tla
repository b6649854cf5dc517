------------------------------ MODULE Relations ------------------------------
(***************************************************************************)
(* When two calls must give the same answer: they ask the same question.   *)
(* A question is the meaning of the airplane and of the arguments, with    *)
(* everything left out replaced by what it stands for.                     *)
(***************************************************************************)
EXTENDS PropChecks

(****************************** same values *******************************)
IsNumber(v) == KindOf(v) = "real"
RECURSIVE DeepMax(_)
DeepMax(x) ==
    CASE KindOf(x) = "real" -> IF RFin(x) THEN RAbs(x) ELSE R0
      [] KindOf(x) = "sequence" -> LET F(i) == DeepMax(x[i]) IN MaxAbsTo(F, Len(x))
      [] OTHER -> R0
RECURSIVE MaxField(_, _)
MaxField(x, fs) == IF fs = {} THEN R0
                   ELSE LET f == CHOOSE f \in fs : TRUE
                        IN RMax(IF IsNumber(x[f]) /\ RFin(x[f]) THEN RAbs(x[f]) ELSE R0, MaxField(x, fs \ {f}))
SmallScale == RQ(1, 1000)
(* Equal up to rounding: the numbers of a record, or of a table, share one scale. *)
RECURSIVE DeepClose(_, _, _, _)
DeepClose(x, y, tol, sc) ==
    /\ KindOf(x) = KindOf(y)
    /\ CASE KindOf(x) = "real" -> IF RFin(x) THEN RClose(x, y, tol, sc) ELSE SameText(x, y)
         [] KindOf(x) = "record" ->
              /\ DOMAIN x = DOMAIN y
              /\ LET own == RMax(SmallScale, MaxField(x, DOMAIN x))
                 IN \A f \in DOMAIN x : DeepClose(x[f], y[f], tol, own)
         [] KindOf(x) = "sequence" ->
              /\ Len(x) = Len(y)
              /\ LET own == RMax(SmallScale, DeepMax(x))
                 IN \A i \in 1..Len(x) : DeepClose(x[i], y[i], tol, own)
         [] OTHER -> x = y
Same(x, y, tol) == DeepClose(x, y, tol, SmallScale)

(**************************** same airplanes ******************************)
AirfoilNumsOf(a) == [k \in 1..Len(AirfoilNums) |-> a[AirfoilNums[k]]]
(* Records as text, whatever the order of their fields. *)
InOrder(r, fields) == ToString([k \in 1..Len(fields) |-> IF Has(r, fields[k]) THEN ToString(r[fields[k]]) ELSE "left out"])
FormFields == <<"type", "value", "increment", "root", "tip", "table">>
MotorFields == <<"motor_kv", "motor_resistance", "motor_no_load_current", "gear_reduction", "battery_voltage",
                 "battery_resistance", "speed_control_resistance">>
PointFields == <<"J", "rot_per_sec", "brake_power", "electric_throttle">>
PropMeaning(p) ==
    << p.name, Diameter(p), Hub(p), Nodes(p), Blades(p), Rotation(p), PropPos(p),
       IF Has(p, "orient") THEN <<QV(p.orient[1]), QV(p.orient[2])>> ELSE <<R0, R0>>,
       InOrder(IF Has(p, "pitch") THEN p.pitch ELSE [type |-> "ratio", value |-> <<1, 2>>], FormFields),
       InOrder(IF Has(p, "chord") THEN p.chord ELSE [type |-> "default"], FormFields),
       LET as == Get(p, "airfoils", << >>)
       IN IF Len(as) = 0 THEN <<AirfoilNumsOf(DefaultAirfoil)>>
          ELSE IF Len(as) = 1 THEN <<AirfoilNumsOf(AirfoilOf(as[1]))>>
          ELSE [k \in 1..Len(as) |-> <<AirfoilNumsOf(AirfoilOf(as[k])), AirfoilPlace(p, as[k])>>],
       IF Has(p, "motor") THEN InOrder(p.motor, MotorFields) ELSE "none" >>
PlaneMeaning(D) ==
    ToString(<< Halves(D), CG(D), Get(D, "lat_ref", "none"), Get(D, "long_ref", "none"),
                [j \in 1..Len(D.props) |-> PropMeaning(D.props[j])],
                IF Get(D, "units", "English") \in {"SI", "si"} THEN "SI" ELSE "English" >>)

(**************************** same arguments ******************************)
FlowFields == {"alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate"}
FlowMeaning(ev) ==
    LET a == IF HasArg(ev, "aero") THEN ev.args.aero
             ELSE IF ev.op = "llsolve" THEN [V_mag |-> RInt(10), rho |-> R1] ELSE DefaultAero
    IN ToString(<< [f \in FlowFields |-> RGet(a, f)], IF Has(a, "V_mag") THEN a.V_mag ELSE "none",
                   IF Has(a, "rho") THEN a.rho ELSE "none", Get(a, "local_state", "none") >>)
ControlMeaning(ev) == LET c == Args(ev, "ctl") IN ToString([f \in {"aileron", "elevator", "rudder", "flap"} |-> RGet(c, f)])
PropArgMeaning(D, ev) == ToString([j \in 1..Len(D.props) |-> InOrder(PropAsked(D.props[j], ev), PointFields)])
CallFields == {"L", "M", "weight", "error", "cosine", "what", "from", "step", "n", "decimals", "cl", "points", "nowings", "stype"}
CallMeaning(ev) ==
    ToString([f \in CallFields |->
        IF Has(ev.call, f) THEN ToString(ev.call[f])
        ELSE CASE f = "cosine" -> "TRUE" [] f = "stype" -> "linear" [] f = "M" -> "<<0, 1>>" [] OTHER -> "none"])
(* What an analysis does with a file name when it cannot answer. *)
MayFail == {"target_lift", "pitch_trim", "stall_onset", "stall_speed", "derivs"}
Pure == {"solve", "dist", "derivs", "stab", "ctrl", "damp", "ac", "stall_onset", "stall_speed", "target_lift", "pitch_trim",
         "llsolve", "propsolve", "sweep", "positions", "grid", "new", "stl"}
NoFlow == {"positions", "grid", "new", "stl"}
Question(D, ev) ==
    << ev.op, PlaneMeaning(D),
       IF ev.op \in NoFlow THEN "" ELSE FlowMeaning(ev) \o ControlMeaning(ev) \o PropArgMeaning(D, ev),
       CallMeaning(ev) >>
Asks(S, i) == S.events[i].op \in Pure /\ ~Has(S.events[i].call, "bare") /\ ~Has(S.events[i].call, "invalid") /\ (S.events[i].op = "new" => Get(S.events[i].call, "how", "code") # "missing")
(* The first event that asks the same question. *)
FirstAsked(S, i) ==
    LET q == Question(PlaneAt(S, i), S.events[i])
        Js == {j \in 1..(i - 1) : S.events[j].op = S.events[i].op /\ Asks(S, j) /\ Question(PlaneAt(S, j), S.events[j]) = q}
    IN IF Js = {} THEN 0 ELSE CHOOSE j \in Js : \A k \in Js : j <= k
Failed(ev) == ev.out # "ok" \/ (ev.op \in MayFail /\ (KindOf(ev.res) = "text" \/ (IsRec(ev.res) /\ Has(ev.res, "error"))))
SameTol(D) == IF HasProps(D) THEN RQ(1, 100000000) ELSE Tiny
SameOutcome(D, a, b) ==
    IF Failed(a) \/ Failed(b)
    THEN Failed(a) /\ Failed(b) /\ (Has(a.call, "file") = Has(b.call, "file") => a.out = b.out)
    ELSE Same(a.res, b.res, SameTol(D)) /\ (Has(a, "stl") /\ Has(b, "stl") => SameText(a.stl, b.stl))
AskedBefore(S, i) ==
    LET j == FirstAsked(S, i)
    IN IF j = 0 THEN << >>
       ELSE << C("the same question has the same answer", SameOutcome(PlaneAt(S, i), S.events[i], S.events[j])) >>
=============================================================================
