------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* Building two airplanes by any interleaving of construction calls. The   *)
(* machine keeps what an implementation keeps: halves holding references   *)
(* to sections and surfaces, and parents by reference. Every part must be  *)
(* what the last call about it said (P25). FAULT plants one way of getting *)
(* this wrong.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS FAULT, DEPTH, Planes, WingNames, KINDS

HalfSides == {"left", "right"}
Values == {1, 2}
Ends == {"root", "tip", "both"}
Lengths == {"lat", "long"}
Unset == 0
VARIABLES halves, centre, refs, hist, callers
vars == <<halves, centre, refs, hist, callers>>

NoHalf == [there |-> FALSE, dim |-> Unset, root |-> Unset, tip |-> Unset, control |-> Unset, parent |-> "", base |-> Unset]
Init == /\ halves = [p \in Planes |-> [w \in WingNames |-> [s \in HalfSides |-> NoHalf]]]
        /\ centre = [p \in Planes |-> [c \in {"x", "y"} |-> Unset]]
        /\ refs = [p \in Planes |-> [l \in Lengths |-> Unset]]
        /\ hist = << >>
        /\ callers = Unset              \* a caller's own object, handed over and later changed
There(p, w) == halves[p][w]["left"].there
(* Where a half is: its own offset from where its parent is. *)
RECURSIVE Where(_, _, _)
Where(p, w, s) == LET h == halves[p][w][s]
                  IN IF FAULT = "snapshot" THEN h.dim + h.base
                     ELSE h.dim + (IF h.parent = "" THEN 0 ELSE Where(p, h.parent, s))
RECURSIVE Ancestors(_, _)
Ancestors(p, w) == LET u == halves[p][w]["left"].parent IN IF u = "" THEN {} ELSE {u} \cup Ancestors(p, u)
Told(e) == e.do \in KINDS /\ hist' = Append(hist, e)
More == Len(hist) < DEPTH

AddWing(p, w, v) ==
    /\ More
    /\ \A u \in WingNames : halves[p][u]["left"].parent # w   \* nothing hangs on the old one
    /\ LET new == [NoHalf EXCEPT !.there = TRUE, !.dim = v]
           kept == halves[p][w]["left"]
           h == IF FAULT = "keepsold" /\ kept.there THEN [new EXCEPT !.root = kept.root, !.tip = kept.tip] ELSE new
       IN halves' = [halves EXCEPT ![p][w] = [s \in HalfSides |-> h]]
    /\ Told([do |-> "wing", p |-> p, w |-> w, v |-> v])
    /\ UNCHANGED <<centre, refs>>
    /\ callers' = v
Airfoil(p, w, end, v) ==
    /\ More /\ There(p, w)
    /\ LET Set(h) == CASE end = "root" -> [h EXCEPT !.root = v]
                       [] end = "tip" -> IF FAULT = "tipresets" THEN [h EXCEPT !.tip = v, !.root = Unset] ELSE [h EXCEPT !.tip = v]
                       [] OTHER -> IF FAULT = "bothistip" THEN [h EXCEPT !.tip = v] ELSE [h EXCEPT !.root = v, !.tip = v]
       IN halves' = [halves EXCEPT ![p] = [u \in WingNames |-> [s \in HalfSides |->
                        IF \/ u = w /\ (FAULT # "onehalf" \/ s = "right")
                           \/ FAULT = "everywing" /\ @[u][s].there
                        THEN Set(@[u][s]) ELSE @[u][s]]]]
    /\ Told([do |-> "airfoil", p |-> p, w |-> w, end |-> end, v |-> v])
    /\ UNCHANGED <<centre, refs, callers>>
Control(p, w, v) ==
    /\ More /\ There(p, w)
    /\ halves' = [halves EXCEPT ![p][w] = [s \in HalfSides |->
                    IF FAULT = "firstwins" /\ @[s].control # Unset THEN @[s] ELSE [@[s] EXCEPT !.control = v]]]
    /\ Told([do |-> "control", p |-> p, w |-> w, v |-> v])
    /\ UNCHANGED <<centre, refs, callers>>
Connect(p, w, u) ==
    /\ More /\ There(p, w) /\ u # w
    /\ u # "" => There(p, u) /\ w \notin Ancestors(p, u)
    /\ halves' = [halves EXCEPT ![p][w] = [s \in HalfSides |->
                    [@[s] EXCEPT !.parent = u, !.base = IF u = "" THEN 0 ELSE Where(p, u, s)]]]
    /\ Told([do |-> "connect", p |-> p, w |-> w, u |-> u])
    /\ UNCHANGED <<centre, refs, callers>>
CentreAt(p, part) ==
    /\ More
    /\ centre' = [q \in Planes |-> IF q = p \/ FAULT = "shared"
                                   THEN [c \in {"x", "y"} |-> IF c \in DOMAIN part THEN part[c]
                                                              ELSE IF FAULT = "cgresets" THEN Unset ELSE centre[q][c]]
                                   ELSE centre[q]]
    /\ Told([do |-> "cg", p |-> p, part |-> part])
    /\ UNCHANGED <<halves, refs, callers>>
Refs(p, part) ==
    /\ More
    /\ refs' = [refs EXCEPT ![p] = [l \in Lengths |-> IF l \in DOMAIN part THEN part[l]
                                                      ELSE IF FAULT = "refskeep" THEN @[l] ELSE Unset]]
    /\ Told([do |-> "refs", p |-> p, part |-> part])
    /\ UNCHANGED <<halves, centre, callers>>
(* The caller changes the object last handed over. *)
Spoil ==
    /\ callers # Unset /\ More
    /\ halves' = IF FAULT = "aliased" THEN [p \in Planes |-> [w \in WingNames |-> [s \in HalfSides |->
                        IF halves[p][w][s].there /\ halves[p][w][s].dim = callers THEN [halves[p][w][s] EXCEPT !.dim = 9] ELSE halves[p][w][s]]]]
                 ELSE halves
    /\ Told([do |-> "spoil"])
    /\ callers' = Unset
    /\ UNCHANGED <<centre, refs>>
Parts(fs) == UNION {[g -> Values] : g \in (SUBSET fs) \ {{}}}
Next == \/ \E p \in Planes, w \in WingNames, v \in Values : AddWing(p, w, v) \/ Control(p, w, v)
        \/ \E p \in Planes, w \in WingNames, v \in Values, e \in Ends : Airfoil(p, w, e, v)
        \/ \E p \in Planes, w \in WingNames, u \in WingNames \cup {""} : Connect(p, w, u)
        \/ \E p \in {1}, part \in Parts({"x", "y"}) : CentreAt(p, part)
        \/ \E p \in {1}, part \in Parts(Lengths) : Refs(p, part)
        \/ Spoil
Spec == Init /\ [][Next]_vars

(********** what the history says, part by part, without replaying it *******)
Latest(Q(_), from) == LET js == {j \in from..Len(hist) : Q(hist[j])} IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : k <= j
BornAt(p, w) == LET Q(e) == e.do = "wing" /\ e.p = p /\ e.w = w IN Latest(Q, 1)
Said(p, w, part) ==
    LET b == BornAt(p, w)
        Q(e) == e.do = part /\ e.p = p /\ e.w = w
        E(e) == e.do = "airfoil" /\ e.p = p /\ e.w = w /\ e.end \in {part, "both"}
    IN IF b = 0 THEN 0 ELSE IF part \in {"root", "tip"} THEN Latest(E, b) ELSE Latest(Q, b)
SaidValue(p, w, part) == LET j == Said(p, w, part) IN IF j = 0 THEN Unset ELSE hist[j].v
SaidParent(p, w) == LET j == Said(p, w, "connect") IN IF j = 0 THEN "" ELSE hist[j].u
RECURSIVE SaidWhere(_, _)
SaidWhere(p, w) == hist[BornAt(p, w)].v + (IF SaidParent(p, w) = "" THEN 0 ELSE SaidWhere(p, SaidParent(p, w)))
(* P25 *)
PartsAsSaid ==
    \A p \in Planes, w \in WingNames, s \in HalfSides :
        LET h == halves[p][w][s]
        IN /\ h.there = (BornAt(p, w) # 0)
           /\ h.there => /\ h.dim = hist[BornAt(p, w)].v
                         /\ h.root = SaidValue(p, w, "root") /\ h.tip = SaidValue(p, w, "tip")
                         /\ h.control = SaidValue(p, w, "control") /\ h.parent = SaidParent(p, w)
PlacedAsSaid == \A p \in Planes, w \in WingNames, s \in HalfSides : There(p, w) => Where(p, w, s) = SaidWhere(p, w)
CentreAsSaid ==
    \A p \in Planes, c \in {"x", "y"} :
        LET Q(e) == e.do = "cg" /\ e.p = p /\ c \in DOMAIN e.part
            j == Latest(Q, 1)
        IN centre[p][c] = IF j = 0 THEN Unset ELSE hist[j].part[c]
RefsAsSaid ==
    \A p \in Planes, l \in Lengths :
        LET Q(e) == e.do = "refs" /\ e.p = p
            j == Latest(Q, 1)
        IN refs[p][l] = IF j = 0 \/ l \notin DOMAIN hist[j].part THEN Unset ELSE hist[j].part[l]
=============================================================================
