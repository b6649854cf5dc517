-------------------------------- MODULE Pools --------------------------------
(***************************************************************************)
(* Airplanes and states to explore, as functions of an integer seed: every *)
(* choice is a fixed hash of the seed and of the place of the choice.      *)
(* Numbers are rationals <<num, den>> (see Geometry).                      *)
(***************************************************************************)
EXTENDS Real64, FiniteSets, TLC

Pick(pool, s, k) == pool[1 + (Mix(s, k) % Len(pool))]
Chance(s, k, n, d) == (Mix(s, k) % d) < n
Restrict(r, fields) == [f \in fields \cap DOMAIN r |-> r[f]]
Without(r, fields) == [f \in (DOMAIN r) \ fields |-> r[f]]
(* Drops each of the listed fields with probability n/4. *)
DropSome(r, order, s, k, n) ==
    Without(r, {order[j] : j \in {j \in 1..Len(order) : Chance(s, k + j, n, 4)}})
With(f, v, r) == (f :> v) @@ r
Q0 == <<0, 1>>
Q1 == <<1, 1>>
NegQ(q) == <<-q[1], q[2]>>
AddQ(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
MulQ(a, b) == <<a[1] * b[1], a[2] * b[2]>>

(* A rational from lo to hi (integers) in steps of 1/den. *)
Between(s, k, lo, hi, den) == << lo * den + (Mix(Mix(s, k), 40503) % ((hi - lo) * den + 1)), den >>
(* Now and then one of the wide range, else one of the pool. *)
Drawn(s, k, often, range, pool) ==
    IF Mix(Mix(s, k), 9973) % 16 < often THEN Between(s, k, range[1], range[2], range[3]) ELSE Pick(pool, s, k)

(* What is allowed of an airplane. wide: how often, of 16, a value is taken from its whole range. *)
Options == [wings |-> <<1, 2, 2, 3>>, grids |-> <<2, 3, 4>>, drop |-> 0, chain |-> TRUE,
            sides |-> <<"both", "both", "both", "left", "right">>, control |-> 2, main |-> TRUE,
            dihedrals |-> <<Q0, Q0, <<5, 1>>, <<-7, 1>>, <<12, 1>>, <<35, 2>>, <<40, 1>>>>,
            sweeps |-> <<Q0, Q0, <<5, 1>>, <<-10, 1>>, <<20, 1>>, <<67, 2>>>>,
            washouts |-> <<Q0, Q0, <<2, 1>>, <<-3, 2>>, <<4, 1>>>>,
            mounts |-> <<Q0, <<2, 1>>, <<-1, 1>>, <<7, 2>>>>, yoffs |-> <<Q0, Q0, <<1, 2>>, <<1, 5>>>>,
            full |-> FALSE, props |-> <<0>>, nodes |-> <<11, 12, 15, 16>>, blend |-> TRUE, refs |-> 2,
            cg |-> TRUE, ctlchords |-> 2, motor |-> FALSE, position |-> 1, propfiles |-> TRUE, units |-> FALSE,
            wide |-> 4, pointed |-> TRUE, names |-> TRUE]

WingNames == <<"Main_Wing", "Horizontal_Stab_with_long_name", "Fin", "Winglet", "Canard">>
(* Names are only names: halves, wings and propellers are not told apart by what their names contain. *)
WingNameSets == << WingNames, WingNames, WingNames, WingNames,
                   <<"upright", "left_handed", "outright", "right", "leftover">>,
                   <<"wing", "wing1", "wing11", "wing_left", "wing_right">>,
                   <<"1", "10", "01", "2", "0">>, <<"a", "b", "c", "d", "e">>, <<"Main_Wing", "main_wing", "MAIN_WING", "Main", "Wing">> >>
PropNames == <<"Prop_1", "Port_propeller_with_long_name", "p3">>
PropNameSets == << PropNames, PropNames, <<"prop", "prop1", "prop11">>, <<"right", "left", "1">>, <<"P", "p", "total">> >>
AirfoilNames == <<"NACA2410", "NACA0012", "Clark_Y">>
Sections0 == <<
    [alpha_L0 |-> <<-1, 50>>, CL_alpha |-> <<61, 10>>, CL_max |-> <<3, 2>>, Cm_L0 |-> <<-2, 50>>,
     Cm_alpha |-> <<-1, 20>>, CD0 |-> <<7, 1000>>, CD0_L |-> <<-3, 1000>>, CD0_L2 |-> <<1, 80>>],
    [alpha_L0 |-> <<0, 1>>, CL_alpha |-> <<643, 100>>, CL_max |-> <<7, 5>>, Cm_L0 |-> <<0, 1>>,
     Cm_alpha |-> <<0, 1>>, CD0 |-> <<53, 10000>>, CD0_L |-> <<0, 1>>, CD0_L2 |-> <<47, 10000>>],
    [alpha_L0 |-> <<-31, 500>>, CL_alpha |-> <<57, 10>>, CL_max |-> <<8, 5>>, Cm_L0 |-> <<-9, 100>>,
     Cm_alpha |-> <<3, 100>>, CD0 |-> <<9, 1000>>, CD0_L |-> <<-6, 1000>>, CD0_L2 |-> <<1, 60>>],
    [alpha_L0 |-> <<1, 40>>, CL_alpha |-> <<13, 2>>, CL_max |-> <<6, 5>>, Cm_L0 |-> <<1, 40>>,
     Cm_alpha |-> <<-1, 10>>, CD0 |-> <<11, 1000>>, CD0_L |-> <<2, 1000>>, CD0_L2 |-> <<1, 50>>]>>

SectionOf(s, k, o) ==
    IF Mix(Mix(s, k), 9967) % 16 < o.wide
    THEN [alpha_L0 |-> <<(Mix(s, k + 5001) % 81) - 40, 500>>, CL_alpha |-> Between(s, k + 5002, 3, 8, 20),
          CL_max |-> Between(s, k + 5003, 1, 3, 20), Cm_L0 |-> <<(Mix(s, k + 5004) % 61) - 30, 100>>,
          Cm_alpha |-> Between(s, k + 5005, -1, 1, 40), CD0 |-> <<Mix(s, k + 5006) % 51, 1000>>,
          CD0_L |-> <<(Mix(s, k + 5007) % 41) - 20, 1000>>, CD0_L2 |-> <<Mix(s, k + 5008) % 51, 1000>>]
    ELSE Pick(Sections0, s, k)
(* The airfoil entries of a wing. In a description from code two entries may share their name. *)
WingAirfoils(s, k, o) ==
    LET a == [name |-> Pick(AirfoilNames, s, k), p |-> SectionOf(s, k + 1, o)]
        b == [name |-> IF ~o.full /\ Chance(s, k + 4, 1, 3) THEN a.name ELSE Pick(AirfoilNames, s, k) \o "b", p |-> SectionOf(s, k + 2, o)]
        c == Mix(s, k + 3) % 10
    IN IF o.full
       THEN IF c < 4 /\ o.blend THEN << With("end", "root", a), With("end", "tip", b) >> ELSE << With("end", "both", a) >>
       ELSE CASE c < 3 /\ o.blend -> << With("end", "root", a), With("end", "tip", b) >>
              [] c = 3 /\ o.blend -> << With("end", "tip", b), With("end", "root", a) >>
              [] c = 4 /\ o.blend -> << With("end", "tip", b) >>
              [] c = 5 -> << With("end", "unsaid", a) >>
              [] c = 6 -> << With("end", "both", a), With("end", "root", b) >>
              [] c = 7 /\ o.blend -> << With("end", "root", a), With("end", "tip", [name |-> b.name]) >>
              [] c = 8 /\ o.blend -> << With("end", "root", [name |-> a.name]), With("end", "tip", [name |-> b.name]), With("end", "root", b) >>
              [] OTHER -> << >>
Mixes == << [elevator |-> Q1], [aileron |-> Q1], [flap |-> Q1, aileron |-> <<1, 2>>],
            [rudder |-> Q1], [elevator |-> <<1, 2>>, flap |-> <<-1, 4>>, rudder |-> <<1, 3>>, aileron |-> <<3, 4>>],
            [elevator |-> <<-3, 2>>, aileron |-> <<1, 5>>] >>
ControlSpans == << <<Q0, Q1>>, <<<<1, 5>>, <<4, 5>>>>, <<<<2, 5>>, <<19, 20>>>>, <<Q0, <<3, 5>>>>, <<<<1, 20>>, <<1, 3>>>>,
                   <<<<1, 2>>, Q1>> >>
ControlChords == << << <<1, 4>>, <<1, 4>> >>, << <<1, 5>>, <<2, 5>> >>, << <<7, 20>>, <<1, 10>> >>, << <<3, 10>> >> >>
ControlEntry(s, k, o) ==
    LET sr == <<Mix(s, k + 6) % 16, 20>>
        st == <<sr[1] + 1 + (Mix(s, k + 7) % (20 - sr[1])), 20>>
        c == [span |-> IF Chance(s, k + 8, o.wide, 16) THEN <<sr, st>> ELSE Pick(ControlSpans, s, k),
              chord |-> IF Chance(s, k + 9, o.wide, 16) THEN << <<1 + (Mix(s, k + 10) % 12), 20>>, <<1 + (Mix(s, k + 11) % 12), 20>> >>
                        ELSE Pick(ControlChords, s, k + 1),
              mix |-> IF Chance(s, k + 12, o.wide, 16)
                      THEN [elevator |-> Between(s, k + 13, -2, 2, 4), aileron |-> Between(s, k + 14, -2, 2, 4),
                            rudder |-> Between(s, k + 15, -2, 2, 4), flap |-> Between(s, k + 16, -2, 2, 4)]
                      ELSE Pick(Mixes, s, k + 2),
              sealed |-> Chance(s, k + 3, 1, 2), sealed_key |-> IF Chance(s, k + 4, 1, 2) THEN "sealed" ELSE "is_sealed"]
        d == IF Len(c.chord) = 1 /\ o.full THEN [c EXCEPT !.chord = <<c.chord[1], c.chord[1]>>] ELSE c
    IN IF o.full \/ Chance(s, k + 5, 2, 3) THEN d ELSE Without(d, {"sealed"})

WingOrder == <<"yoffset", "semispan", "sweep", "dihedral", "mount_angle", "washout", "root_chord", "tip_chord", "pos", "is_main", "side">>
WingEntry(s, w, prev, o) ==
    LET k == 100 * w
        first == w = 1
        side == IF first THEN Pick(o.sides, s, k + 1) ELSE Pick(<<"both", "both", "left", "right">>, s, k + 1)
        parents == SelectSeq(prev, LAMBDA v : v.side = "both" \/ v.side = side)
        parent == IF o.chain /\ Len(parents) > 0 /\ Chance(s, k + 2, 1, 2) THEN Pick(parents, s, k + 3).name ELSE ""
        pos == IF parent # "" THEN Pick(<< <<Q0, Q0, Q0>>, <<<<-1, 2>>, Q0, <<1, 4>>>>, <<<<-1, 3>>, <<1, 5>>, <<-1, 5>>>> >>, s, k + 4)
               ELSE IF first THEN Pick(<< <<Q0, Q0, Q0>>, <<<<1, 2>>, Q0, <<-1, 4>>>>, <<<<-3, 2>>, <<1, 10>>, <<1, 5>>>> >>, s, k + 4)
               ELSE IF Chance(s, k + 97, o.wide, 16)
               THEN << Between(s, k + 91, -10, 10, 4), Between(s, k + 92, -2, 2, 8), AddQ(Between(s, k + 93, -8, 8, 4), <<1, 16>>) >>
               ELSE Pick(<< <<<<-5, 1>>, Q0, <<-1, 2>>>>, <<<<-13, 2>>, Q0, <<3, 4>>>>, <<<<-4, 1>>, <<1, 4>>, <<-1, 1>>>>,
                            <<<<3, 1>>, Q0, <<3, 10>>>> >>, s, k + 4 + w)
        chords == IF Chance(s, k + 16, o.wide, 16)
                  THEN << <<1 + (Mix(s, k + 17) % 40), 10>>, IF o.pointed /\ Chance(s, k + 19, 1, 4) THEN Q0 ELSE <<1 + (Mix(s, k + 18) % 40), 10>> >>
                  ELSE Pick(<< <<Q1, Q1>>, <<<<3, 2>>, <<4, 5>>>>, <<<<4, 5>>, <<6, 5>>>>, <<<<5, 4>>, <<1, 2>>>> >>, s, k + 5)
        full == [name |-> IF o.names THEN Pick(WingNameSets, s, 12)[w] ELSE WingNames[w], parent |-> parent, pos |-> pos, side |-> side,
                 yoffset |-> Drawn(s, k + 6, o.wide, <<0, 2, 10>>, o.yoffs),
                 semispan |-> IF Chance(s, k + 98, o.wide, 16) THEN <<2 + (Mix(s, k + 99) % 199), 10>>
                              ELSE Pick(<< <<4, 1>>, <<5, 2>>, <<6, 1>>, <<13, 4>> >>, s, k + 7),
                 sweep |-> Drawn(s, k + 8, o.wide, <<-55, 60, 2>>, o.sweeps),
                 dihedral |-> IF side # "both" /\ Chance(s, k + 9, 1, 3) THEN <<90, 1>>
                              ELSE Drawn(s, k + 10, o.wide, <<-90, 150, 1>>, o.dihedrals),
                 mount_angle |-> Drawn(s, k + 11, o.wide, <<-15, 15, 4>>, o.mounts),
                 washout |-> Drawn(s, k + 12, o.wide, <<-10, 12, 4>>, o.washouts),
                 root_chord |-> chords[1], tip_chord |-> chords[2], grid |-> Pick(o.grids, s, k + 13),
                 is_main |-> IF first \/ ~o.main THEN TRUE ELSE Chance(s, k + 14, 1, 3),
                 airfoils |-> WingAirfoils(s, k + 20, o), at |-> "tip", id |-> 3 * w - 2]
        dropped == IF o.full \/ o.drop = 0 THEN full ELSE DropSome(full, WingOrder, s, k + 40, o.drop)
    IN IF Chance(s, k + 15, o.control, 4) THEN With("control", ControlEntry(s, k + 60, o), dropped) ELSE dropped
(* A dropped side means both; a child needs a parent that has its sides. *)
RECURSIVE WingList(_, _, _, _)
WingList(s, n, prev, o) ==
    IF Len(prev) = n THEN prev
    ELSE LET known == [j \in 1..Len(prev) |-> With("side", IF "side" \in DOMAIN prev[j] THEN prev[j].side ELSE "both", prev[j])]
             w == WingEntry(s, Len(prev) + 1, known, o)
             fixed == IF "side" \notin DOMAIN w /\ w.parent # ""
                         /\ \E j \in 1..Len(known) : known[j].name = w.parent /\ known[j].side # "both"
                      THEN With("side", (CHOOSE v \in {known[j] : j \in 1..Len(known)} : v.name = w.parent).side, w)
                      ELSE w
         IN WingList(s, n, Append(prev, fixed), o)

(******************************* propellers *******************************)
PitchTable == << <<<<1, 20>>, <<45, 1>>>>, <<<<2, 5>>, <<28, 1>>>>, <<<<7, 10>>, <<18, 1>>>>, <<<<1, 1>>, <<12, 1>>>> >>
ChordTable == << <<<<1, 20>>, <<3, 20>>>>, <<<<2, 5>>, <<4, 25>>>>, <<<<7, 10>>, <<3, 25>>>>, <<<<1, 1>>, <<1, 20>>>> >>
Motors == << [motor_kv |-> <<1100, 1>>, motor_resistance |-> <<3, 100>>, motor_no_load_current |-> <<1, 1>>,
              gear_reduction |-> <<2, 1>>, battery_resistance |-> <<1, 50>>, battery_voltage |-> <<22, 1>>,
              speed_control_resistance |-> <<1, 100>>],
             [motor_kv |-> <<700, 1>>, motor_resistance |-> <<1, 20>>, motor_no_load_current |-> <<4, 5>>,
              gear_reduction |-> <<1, 1>>, battery_resistance |-> <<3, 100>>, battery_voltage |-> <<16, 1>>,
              speed_control_resistance |-> <<3, 500>>],
             [motor_kv |-> <<400, 1>>, motor_resistance |-> <<1, 25>>, motor_no_load_current |-> <<3, 5>>,
              gear_reduction |-> <<4, 5>>, battery_resistance |-> <<1, 100>>, battery_voltage |-> <<19, 1>>,
              speed_control_resistance |-> <<1, 200>>],
             [motor_kv |-> <<1500, 1>>, motor_resistance |-> <<1, 50>>, motor_no_load_current |-> <<3, 2>>,
              gear_reduction |-> <<7, 2>>, battery_resistance |-> <<1, 40>>, battery_voltage |-> <<12, 1>>,
              speed_control_resistance |-> <<1, 125>>],
             [motor_kv |-> <<250, 1>>, motor_resistance |-> <<1, 30>>, motor_no_load_current |-> <<1, 2>>,
              gear_reduction |-> <<1, 2>>, battery_resistance |-> <<1, 50>>, battery_voltage |-> <<25, 1>>,
              speed_control_resistance |-> <<1, 100>>] >>
PropAirfoilEntries(s, k, o) ==
    LET a == [name |-> Pick(AirfoilNames, s, k), p |-> SectionOf(s, k + 1, o)]
        b == [name |-> Pick(AirfoilNames, s, k) \o "b", p |-> SectionOf(s, k + 2, o)]
        c == [name |-> "mid", p |-> SectionOf(s, k + 4, o), at |-> Pick(<< <<1, 2>>, <<7, 10>>, <<2, 5>> >>, s, k + 5)]
        d == [name |-> "out", p |-> SectionOf(s, k + 6, o)]
        ch == Mix(s, k + 3) % 8
        (* places that reach neither end, in any order *)
        spots == Pick(<< << <<3, 10>>, <<11, 20>>, <<4, 5>> >>, << <<9, 10>>, <<2, 5>>, <<3, 5>> >>,
                         << <<1, 2>>, <<17, 20>>, <<7, 20>> >>, << <<13, 20>>, <<9, 20>>, <<3, 4>> >> >>, s, k + 7)
        three == << With("at", spots[1], a), With("at", spots[2], b), With("at", spots[3], d) >>
        ends == << With("at", "root", a), With("at", "tip", b) >>
    IN IF o.full THEN IF ch < 3 THEN ends ELSE << a >>
       ELSE CASE ch = 0 -> << a >>
              [] ch = 1 -> ends
              [] ch = 2 -> << With("at", "Tip", b), c, With("at", "ROOT", a) >>
              [] ch = 3 -> << With("at", <<1, 4>>, a), c >>
              [] ch = 4 -> three
              [] ch = 5 -> << three[1], With("at", "tip", b), three[3] >>
              [] ch = 6 -> << three[2], three[3], With("at", "root", [name |-> "in", p |-> SectionOf(s, k + 8, o)]), three[1] >>
              [] OTHER -> << >>
PropOrder == <<"hub", "rot", "blades", "orient", "pitch", "chord", "diameter", "pos">>
PropEntry(s, j, o) ==
    LET k == 1000 + 100 * j
        d == IF Chance(s, k + 50, o.wide, 16) THEN <<4 + (Mix(s, k + 51) % 77), 20>> ELSE Pick(<< Q1, <<3, 2>>, <<2, 1>>, <<4, 5>> >>, s, k)
        pitches == << [type |-> "default"], [type |-> "ratio", value |-> <<3, 5>>], [type |-> "value", value |-> <<4, 5>>],
                      [type |-> "ratio", value |-> <<9, 10>>], [type |-> "value", value |-> Q1, increment |-> <<3, 2>>],
                      [type |-> "ratio", value |-> <<2, 5>>, increment |-> <<-1, 1>>],
                      [type |-> "from_file", table |-> PitchTable], [type |-> "from_file", table |-> PitchTable, increment |-> <<2, 1>>],
                      [type |-> "ratio", value |-> <<4 + (Mix(s, k + 52) % 60), 40>>, increment |-> Between(s, k + 53, -5, 5, 4)],
                      [type |-> "value", value |-> MulQ(d, <<4 + (Mix(s, k + 54) % 60), 40>>)] >>
        chords == << [type |-> "default"], [type |-> "linear", root |-> <<1, 8>>, tip |-> <<1, 16>>],
                     [type |-> "linear", root |-> <<1, 10>>], [type |-> "elliptical", root |-> <<1, 9>>],
                     [type |-> "from_file", table |-> ChordTable],
                     [type |-> "linear", root |-> MulQ(d, <<2 + (Mix(s, k + 55) % 14), 100>>), tip |-> MulQ(d, <<1 + (Mix(s, k + 56) % 12), 100>>)],
                     [type |-> "elliptical", root |-> MulQ(d, <<2 + (Mix(s, k + 57) % 14), 100>>)] >>
        usable(seq) == IF o.propfiles THEN seq ELSE SelectSeq(seq, LAMBDA t : t.type # "from_file")
        full == [name |-> IF o.names THEN Pick(PropNameSets, s, 13)[j] ELSE PropNames[j],
                 pos |-> IF j = 1 THEN Pick(<< <<Q1, Q0, Q0>>, <<<<3, 4>>, <<1, 10>>, <<-1, 20>>>>, <<<<6, 5>>, <<-1, 1>>, <<1, 8>>>> >>, s, k + 1)
                         ELSE Pick(<< <<<<1, 2>>, <<2, 1>>, Q0>>, <<<<3, 5>>, <<-5, 2>>, <<-1, 5>>>> >>, s, k + 1),
                 orient |-> IF Chance(s, k + 58, o.wide, 16) THEN << Between(s, k + 59, -30, 30, 2), Between(s, k + 60, -30, 30, 2) >>
                            ELSE Pick(<< <<Q0, Q0>>, <<<<3, 1>>, Q0>>, <<<<-2, 1>>, <<4, 1>>>>, <<<<5, 1>>, <<-6, 1>>>> >>, s, k + 2),
                 nodes |-> Pick(o.nodes, s, k + 3), diameter |-> d,
                 hub |-> MulQ(d, IF Chance(s, k + 61, o.wide, 16) THEN <<2 + (Mix(s, k + 62) % 37), 100>> ELSE Pick(<< <<1, 10>>, <<1, 8>>, <<1, 5>> >>, s, k + 4)),
                     (* hubs stay inside the innermost inboard airfoil station *)
                 blades |-> Pick(<<2, 2, 3, 4, 2, 5, 6>>, s, k + 5),
                 rot |-> Pick(<<"CCW", "CW", "cw", "ccw", "1", "-1", "0", "1.0", "-1.0">>, s, k + 6),
                 pitch |-> Pick(usable(pitches), s, k + 7), chord |-> Pick(usable(chords), s, k + 8),
                 airfoils |-> PropAirfoilEntries(s, k + 10, o)]
        dropped == IF o.full \/ o.drop = 0 THEN full ELSE DropSome(full, PropOrder, s, k + 40, o.drop)
        (* a hub wider than a dropped (unit) diameter's blades is avoided *)
        safe == IF "hub" \in DOMAIN dropped /\ "diameter" \notin DOMAIN dropped THEN Without(dropped, {"hub"}) ELSE dropped
    IN IF o.motor THEN With("motor", Pick(Motors, s, k + 30), safe) ELSE safe

(******************************** the airplane ****************************)
On(r, f, G(_)) == IF f \in DOMAIN r THEN [r EXCEPT ![f] = G(@)] ELSE r
OnAll(r, fs, G(_)) == [x \in DOMAIN r |-> IF x \in fs THEN G(r[x]) ELSE r[x]]
Each(seq, F(_)) == [i \in 1..Len(seq) |-> F(seq[i])]
MulVec(k, v) == <<MulQ(k, v[1]), MulQ(k, v[2]), MulQ(k, v[3])>>
(* An airplane k times as large. *)
SizeWing(k, w) == OnAll(On(w, "pos", LAMBDA v : MulVec(k, v)), {"yoffset", "semispan", "root_chord", "tip_chord"}, LAMBDA x : MulQ(k, x))
SizeWingFull(k, w) ==
    LET a == IF "semispan" \in DOMAIN w THEN w ELSE With("semispan", <<4, 1>>, w)
        b == IF "root_chord" \in DOMAIN a THEN a ELSE With("root_chord", Q1, a)
    IN SizeWing(k, b)
SizeProp(k, p) ==
    LET a == IF "diameter" \in DOMAIN p THEN p ELSE With("diameter", Q1, p)
        b == OnAll(On(a, "pos", LAMBDA v : MulVec(k, v)), {"diameter", "hub"}, LAMBDA x : MulQ(k, x))
        Chord(c) == OnAll(c, {"root", "tip"}, LAMBDA x : MulQ(k, x))
        Pitch(t) == IF t.type = "value" THEN [t EXCEPT !.value = MulQ(k, @)] ELSE t
    IN On(On(b, "chord", Chord), "pitch", Pitch)
SizePlane(k, p) ==
    OnAll(OnAll([p EXCEPT !.wings = Each(@, LAMBDA w : SizeWingFull(k, w)), !.props = Each(@, LAMBDA r : SizeProp(k, r))],
                {"cg", "position"}, LAMBDA v : MulVec(k, v)), {"lat_ref", "long_ref"}, LAMBDA x : MulQ(k, x))

PlaneEntry(s, o) ==
    LET nw == Pick(o.wings, s, 1)
        np == Pick(o.props, s, 2)
        base == [name |-> "plane", wings |-> WingList(s, nw, << >>, o), props |-> [j \in 1..np |-> PropEntry(s, j, o)]]
        withcg == IF o.cg /\ (o.full \/ Chance(s, 3, 3, 4))
                  THEN With("cg", Pick(<< <<<<-1, 4>>, Q0, Q0>>, <<<<-3, 10>>, <<1, 20>>, <<1, 10>>>>, <<<<1, 2>>, Q0, <<-2, 5>>>> >>, s, 4), base)
                  ELSE base
        r == Mix(s, 5) % 4
        withlat == IF o.refs > 0 /\ r \in {0, 2} THEN With("lat_ref", Pick(<< <<8, 1>>, <<21, 2>>, <<3, 4>>, <<13, 5>> >>, s, 6), withcg) ELSE withcg
        withlong == IF o.refs > 0 /\ r \in {1, 2} THEN With("long_ref", Pick(<< Q1, <<11, 10>>, <<9, 2>>, <<2, 5>> >>, s, 7), withlat) ELSE withlat
        withpos == IF ~o.full /\ o.position > 0 /\ Chance(s, 8, 1, 3)
                   THEN With("position", Pick(<< <<<<1, 1>>, <<1, 2>>, <<-1, 1>>>>, <<<<-2, 1>>, Q0, <<1, 3>>>> >>, s, 9), withlong)
                   ELSE withlong
        withunits == IF o.units THEN With("units", Pick(<<"English", "SI", "english", "si">>, s, 10), withpos) ELSE withpos
        (* now and then a very small or a very large one *)
        sized == IF Mix(s, 15) % 48 < o.wide THEN SizePlane(Pick(<< <<1, 20>>, <<1, 80>>, <<1, 80>>, <<10, 1>>, <<40, 1>> >>, s, 16), withunits) ELSE withunits
        (* what the caller keeps the numbers in *)
        held == Pick(<<"", "", "", "", "", "tuple", "lists", "ints", IF o.full THEN "ints" ELSE "array">>, s, 14)
    IN IF held = "" THEN sized ELSE With("held", held, sized)
HowOf(s, o) == IF o.full /\ Chance(s, 11, 1, 2) THEN "file" ELSE "code"

RECURSIVE CountSections(_, _)
CountSections(ws, i) ==
    IF i = 0 THEN 0
    ELSE CountSections(ws, i - 1)
         + (IF "grid" \in DOMAIN ws[i] THEN ws[i].grid ELSE 40)
           * (IF "side" \in DOMAIN ws[i] /\ ws[i].side # "both" THEN 1 ELSE 2)

(********************************* states *********************************)
Speeds == << <<10, 1>>, <<25, 1>>, <<33, 2>>, <<60, 1>> >>
Densities == << <<24, 10000>>, <<49, 40>>, Q1, <<24, 10000>>, <<49, 40>>, <<1, 2000>>, <<4, 1>> >>
Angles == << Q0, <<3, 1>>, <<-4, 1>>, <<15, 2>>, <<10, 1>>, <<1, 2>> >>
Betas == << Q0, Q0, <<4, 1>>, <<-6, 1>>, <<1, 1>> >>
Rates == << <<1, 5>>, <<-1, 2>>, <<1, 1>>, Q0 >>
WideStates == 3    \* of 16
SpeedOf(s, k) ==
    IF Mix(Mix(s, k), 8887) % 24 = 0 THEN Pick(<< <<1, 2>>, <<1, 10>>, <<1, 50>>, <<2, 1>> >>, s, k)
    ELSE Drawn(s, k, WideStates, <<1, 300, 1>>, Speeds)
AlphaOf(s, k) == Drawn(s, k, WideStates, <<-30, 30, 8>>, Angles)
BetaOf(s, k) == Drawn(s, k, WideStates, <<-30, 30, 8>>, Betas)
RateOf(s, k) == Drawn(s, k, WideStates, <<-3, 3, 10>>, Rates)
Aero(s, k) ==
    DropSome([V_mag |-> SpeedOf(s, k), rho |-> Pick(Densities, s, k + 1), alpha |-> AlphaOf(s, k + 2),
              beta |-> BetaOf(s, k + 3)], <<"alpha", "beta">>, s, k + 4, 1)
(* Every subset of the rates is about as likely. *)
AnyRates(s, k) ==
    DropSome([roll_rate |-> RateOf(s, k), pitch_rate |-> RateOf(s, k + 1), yaw_rate |-> RateOf(s, k + 2)],
             <<"roll_rate", "pitch_rate", "yaw_rate">>, s, k + 3, 2)
RateAero(s, k) == Aero(s, k) @@ AnyRates(s, k + 10)
LocalField(s, k, n) ==
    [i \in 1..n |-> << Pick(<< <<6, 5>>, Q1, <<11, 10>> >>, s, k + 4 * i),
                       Pick(<< <<-20, 1>>, <<-22, 1>>, <<-47, 2>> >>, s, k + 4 * i + 1),
                       Pick(<< Q0, <<1, 1>>, <<-1, 2>> >>, s, k + 4 * i + 2),
                       Pick(<< <<-1, 1>>, <<-2, 1>>, <<1, 2>> >>, s, k + 4 * i + 3) >>]
LocalAero(s, k, n) ==
    LET f == [local_state |-> LocalField(s, k + 20, n)]
        c == Mix(s, k) % 6
        named == [V_mag |-> <<21, 1>>, rho |-> Q1, alpha |-> AlphaOf(s, k + 1)]
        onerate == Pick(<< "yaw_rate", "pitch_rate", "roll_rate" >>, s, k + 3) :> Pick(<< <<1, 4>>, <<-1, 3>>, <<3, 5>> >>, s, k + 4)
    IN CASE c = 0 -> f
         [] c = 1 -> f @@ named @@ [beta |-> BetaOf(s, k + 2)]
         [] c = 2 -> f @@ AnyRates(s, k + 5)
         [] c = 3 -> f @@ onerate
         [] c = 4 -> f @@ named @@ onerate
         [] OTHER -> f @@ named @@ AnyRates(s, k + 5)
Inputs == << <<2, 1>>, <<-5, 1>>, <<15, 1>>, <<25, 2>>, Q0, <<-20, 1>>, <<8, 1>>, <<221, 20>> >>
InputOf(s, k) == Drawn(s, k, WideStates, <<-60, 60, 2>>, Inputs)
Controls(s, k) ==
    DropSome([elevator |-> InputOf(s, k), aileron |-> InputOf(s, k + 1), rudder |-> InputOf(s, k + 2),
              flap |-> InputOf(s, k + 3)], <<"elevator", "aileron", "rudder", "flap">>, s, k + 4, 1)
Advances == << <<1, 4>>, <<1, 2>>, <<3, 5>>, <<7, 20>> >>
AdvanceOf(s, k) == IF Chance(s, k + 7, WideStates, 16) THEN <<1 + (Mix(s, k + 8) % 75), 50>> ELSE Pick(Advances, s, k)
PropState(s, k) == [J |-> AdvanceOf(s, k)]
=============================================================================
