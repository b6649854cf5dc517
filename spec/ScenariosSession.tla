--------------------------- MODULE ScenariosSession ---------------------------
(***************************************************************************)
(* Histories of calls: walks through the actions of Session, made concrete.*)
(***************************************************************************)
EXTENDS ScenariosProp

SessionOptions == [Options EXCEPT !.grids = <<2, 3>>, !.wings = <<1, 2, 2>>, !.props = <<0, 0, 1, 2>>, !.nodes = <<11, 12>>,
                                  !.control = 3]
(* A small set of states, so that questions come back. *)
NearBy(s, k) == Pick(<< <<1, 100000>>, <<-1, 100000>>, <<1, 1000>> >>, s, k)
Near(r, f, by) == With(f, IF f \in DOMAIN r THEN AddQ(r[f], by) ELSE by, r)
Grown(r, f) == With(f, MulQ(IF f \in DOMAIN r THEN r[f] ELSE Q1, <<11, 10>>), r)
Shifted(r, f, by) == Near(r, f, by)
(* Flows that come back, and flows that differ from them in one entry. *)
FlowNo(s, k) ==
    LET a == Aero(s, 300)
        r == RateAero(s, 320)
        n == Mix(s, k) % 14
    IN CASE n \in {0, 1} -> << >>
         [] n \in {2, 3} -> [aero |-> a]
         [] n \in {4, 5} -> [aero |-> r]
         [] n = 6 -> [aero |-> [V_mag |-> Pick(Speeds, s, 340), rho |-> Pick(Densities, s, 341)]]
         [] n \in {7, 8} -> [aero |-> Near(a, "alpha", NearBy(s, 342))]
         [] n = 9 -> [aero |-> Shifted(a, "beta", Pick(<< <<1, 1>>, <<1, 1000>>, <<-2, 1>> >>, s, 343))]
         [] n = 10 -> [aero |-> Grown(a, "V_mag")]
         [] n = 11 -> [aero |-> Grown(a, "rho")]
         [] n = 12 -> [aero |-> Shifted(r, Pick(<<"roll_rate", "pitch_rate", "yaw_rate">>, s, k + 1), <<1, 5>>)]
         [] OTHER -> [aero |-> Without(r, {Pick(<<"alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate">>, s, k + 1)})]
InputNo(s, k) ==
    LET n == Mix(s, k) % 10
        c == Controls(s, 350)
        one == Pick(<<"elevator", "aileron", "rudder", "flap">>, s, k + 3)
    IN CASE n \in {0, 1} -> << >>
         [] n \in {2, 3} -> [ctl |-> c]
         [] n \in {4, 5} -> [ctl |-> [elevator |-> Pick(Inputs, s, 360)]]
         [] n \in {6, 7} -> [ctl |-> Near(c, "elevator", NearBy(s, 361))]
         [] n = 8 -> [ctl |-> Shifted(c, one, <<1, 1>>)]
         [] OTHER -> [ctl |-> Without(c, {one})]
PointNo(s, k, kinds) ==
    LET n == Mix(s, k) % kinds
        moved == Chance(s, k + 5, 1, 3)
        Or(r, f, by) == IF moved THEN Shifted(r, f, by) ELSE r
    IN CASE n = 0 -> << >>
         [] n = 1 -> [prop |-> Or(PropState(s, 370), "J", <<1, 1000>>)]
         [] n = 2 -> [prop |-> Or(RateState(s, 371), "rot_per_sec", <<1, 10>>)]
         [] n = 3 -> [prop |-> PowerState(s, 372, Aero(s, 300).rho)]
         [] OTHER -> [prop |-> ThrottleState(s, 373)]
(* Propellers with motors can be asked about brake powers and throttles as well. *)
Points(p) == IF "units" \in DOMAIN p /\ Len(p.props) > 0 /\ \A j \in 1..Len(p.props) : "motor" \in DOMAIN p.props[j] THEN 5 ELSE 3
Motored(s, o) == IF Chance(s, 92, 1, 3) THEN [o EXCEPT !.full = TRUE, !.motor = TRUE, !.units = TRUE, !.props = <<0, 1, 1, 2>>] ELSE MaybeFull(s, o)
OneOf(s, o) == LET x == One(s, o) IN IF o.units THEN [x EXCEPT !.how = "file"] ELSE x
ArgsAmong(s, k, n) == FlowNo(s, k) @@ InputNo(s, k + 1) @@ PointNo(s, k + 2, n)
Args3(s, k, p) == ArgsAmong(s, k, Points(p))
(* Searches seldom at a brake power or throttle: hundreds of solves, each with a search of its own. *)
ArgsSearch(s, k, p) == ArgsAmong(s, k, IF Chance(s, k + 9, 1, 4) THEN Points(p) ELSE 3)
Lifts == << <<20, 1>>, <<200, 1>>, <<3, 1>>, <<2000, 1>>, <<-5, 1>> >>
FileOf(s, k) == IF Chance(s, k, 1, 4) THEN [file |-> "new"] ELSE << >>
WalkOps == <<"solve", "dist", "derivs", "stab", "ctrl", "damp", "stall_onset", "target_lift", "pitch_trim", "llsolve",
             "propsolve", "stl", "sweep", "ac", "stall_speed", "grid">>
WalkCall(op, m, s, k, p) ==
    LET a == Args3(s, k, p)
        spaced == IF Chance(s, k + 7, 1, 3) THEN [cosine |-> Chance(s, k + 8, 1, 3)] ELSE << >>
    IN
    CASE op \in {"solve", "dist", "derivs"} -> Op(op, m) @@ a @@ FileOf(s, k + 5)
      [] op = "target_lift" -> Op(op, m) @@ ArgsSearch(s, k, p) @@ [L |-> Pick(Lifts, s, k + 6), file |-> "new"]
      [] op = "pitch_trim" -> Op(op, m) @@ ArgsSearch(s, k, p) @@ [L |-> Pick(Lifts, s, k + 6), file |-> "new"]
      [] op = "stall_onset" -> Op(op, m) @@ ArgsSearch(s, k, p) @@ FileOf(s, k + 5)
      [] op = "stall_speed" -> Op(op, m) @@ FlowNo(s, k) @@ InputNo(s, k + 1) @@ PointNo(s, k + 2, 2)
                               @@ [weight |-> Pick(<< <<20, 1>>, <<300, 1>> >>, s, k + 6)]
      [] op = "sweep" -> Op(op, m) @@ [aero |-> Aero(s, 300)] @@ InputNo(s, k + 1) @@ [from |-> <<-2, 1>>, step |-> <<3, 2>>, n |-> 4]
      [] op = "llsolve" -> Op(op, m) @@ FlowNo(s, k) @@ InputNo(s, k + 1) @@ spaced
      [] op = "propsolve" -> Op(op, m) @@ FlowNo(s, k) @@ PointNo(s, k + 2, Points(p))
      [] op = "grid" -> Op(op, m) @@ spaced
      [] op = "stl" -> Op(op, m)
      [] OTHER -> Op(op, m) @@ a
(* Calls that cannot be answered. *)
BadStates(s, k) ==
    Pick(<< [aero |-> [rho |-> Q1]], [aero |-> [V_mag |-> <<10, 1>>]], [aero |-> [alpha |-> <<2, 1>>]],
            [aero |-> Aero(s, 300), prop |-> [bogus |-> Q1]], [aero |-> Aero(s, 300), prop |-> [J |-> Q0]],
            [prop |-> [J |-> Q0]],
            [aero |-> Aero(s, 300), prop |-> [electric_throttle |-> <<1, 2>>]] >>, s, k)
BadOps == <<"solve", "dist", "derivs", "stab", "ctrl", "damp", "target_lift", "pitch_trim", "stall_onset", "llsolve", "propsolve">>
BadCall(m, s, k) ==
    LET op == Pick(BadOps, s, k)
        b == BadStates(s, k + 1)
    IN CASE op \in {"target_lift", "pitch_trim"} -> Op(op, m) @@ b @@ [L |-> Q1]
         [] op = "llsolve" -> Op(op, m) @@ [aero |-> [rho |-> Q1]]
         [] op = "propsolve" -> Op(op, m) @@ b
         [] OTHER -> Op(op, m) @@ b
CanDo(op, p) == CASE op \in {"derivs", "stab", "ctrl", "damp", "ac", "stall_onset", "stall_speed", "llsolve", "pitch_trim", "grid"} -> Len(p.wings) > 0
                  [] op = "propsolve" -> Len(p.props) > 0
                  [] op = "target_lift" -> Len(p.wings) > 0
                  [] OTHER -> TRUE
(* Analyses with hundreds of solves are left to airplanes without propellers. *)
Slow(op, p) == op \in {"ac", "stall_speed", "derivs"} /\ Len(p.props) > 0
Usable(op, p) == IF CanDo(op, p) /\ ~Slow(op, p) THEN op ELSE "solve"
Ops(s, k, n, p) ==        \* the n-th call's analysis; the first two run through all pairs
    LET t == Len(WalkOps)
        pair == k % (t * t)
    IN CASE n = 1 -> Usable(WalkOps[1 + (pair \div t)], p)
         [] n = 2 -> Usable(WalkOps[1 + (pair % t)], p)
         [] OTHER -> Usable(Pick(WalkOps, s, 400 + n), p)
Alone(call, m) == [call EXCEPT !.m = m]

(* The nonlinear questions to the solver are at times asked in a flow given section by section. *)
WithField(call, p, s, k) ==
    IF call.op = "llsolve" /\ Chance(s, k, 2, 3)
    THEN [aero |-> LocalAero(s, k + 1, CountSections(p.wings, Len(p.wings)))] @@ call
    ELSE call

(* P08: a walk, and then every call of it on a model built for it, in a process in which nothing else has happened. *)
Apart(call, n) == With("apart", n, call)
ScWalk(id, s, k) ==
    LET x == OneOf(s, Motored(s, SessionOptions))
        y == OneOf(Mix(s, 17), Motored(s, SessionOptions))
        twin == Mix(s, 20) % 4
        second == CASE twin = 0 -> << New(2, 1, x.how) >>                       \* the same description again
                    [] twin = 1 -> << New(2, 2, y.how) >>
                    [] twin = 2 -> << [op |-> "new", m |-> 2, how |-> "same", of |-> 1, plane |-> 1] >>   \* the same airplane object
                    [] OTHER -> << >>
        two == Len(second) > 0
        pl(m) == IF m = 2 /\ twin = 1 THEN y.plane ELSE x.plane
        who(n) == IF two /\ Chance(s, 500 + n, 1, 3) THEN 2 ELSE 1
        len == 6
        Step(n) == IF n > 2 /\ Chance(s, 600 + n, 1, 5) THEN BadCall(who(n), s, 700 + 10 * n)
                   ELSE WithField(WalkCall(Ops(s, k, n, pl(who(n))), who(n), s, 800 + 10 * n, pl(who(n))), pl(who(n)), s, 1200 + (Mix(s, n) % 2))
        walk == [n \in 1..len |-> Step(n)]
        RECURSIVE Again(_)
        Again(n) == IF n > len THEN << >>
                    ELSE LET m == walk[n].m
                             fresh0 == IF m = 2 /\ twin = 1 THEN New(3, 2, y.how) ELSE New(3, 1, x.how)
                             (* what needs only the airplane is asked of an airplane without a model *)
                             fresh == IF walk[n].op \in {"grid", "llsolve"} THEN With("bare", TRUE, fresh0) ELSE fresh0
                         IN << Apart(fresh, n), Apart(Alone(walk[n], 3), n) >> \o Again(n + 1)
    IN Sc(id, "walk", << x.plane, y.plane >>, << New(1, 1, x.how) >> \o second \o walk \o Again(1))

(* P09: the same dictionaries in several calls, results kept and looked at later, results changed. *)
ScKept(id, s, k) ==
    LET x == OneOf(s, Motored(s, SessionOptions))
        Call0(n, op) == WithField(WalkCall(Usable(op, x.plane), 1, s, 800 + 10 * n, x.plane), x.plane, s, 1200 + 40 * n)
        t == Len(WalkOps)
        a == Call0(1, WalkOps[1 + (k % t)])
        b == Call0(2, WalkOps[1 + ((k \div t) % t)])
        c == Call0(3, Pick(WalkOps, s, 403))
        bad == BadCall(1, s, 450)
        Rec(n) == [op |-> "recheck", m |-> 1, of |-> n]
    IN Sc(id, "kept", << x.plane >>,
          << New(1, 1, x.how),                                       \* 1
             a,                                                      \* 2
             Op(b.op, 1) @@ b @@ [shared |-> 2],                     \* 3: with the dictionaries of 2
             Rec(2),
             bad,                                                    \* 5
             Op(c.op, 1) @@ c @@ [shared |-> 5],                     \* 6: with those of the failed call
             Rec(2), Rec(3),
             a @@ [shared |-> 2],                                    \* 9: the first question again
             [op |-> "scribble", m |-> 1, of |-> 9], [op |-> "scribble", m |-> 1, of |-> 2],
             Rec(3),
             a,                                                      \* 13: and again
             c,
             New(2, 1, x.how), Alone(a, 2), Rec(13), Rec(3) >>)
===============================================================================
