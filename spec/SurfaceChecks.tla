---------------------------- MODULE SurfaceChecks ----------------------------
(* Clauses about the exported surface (P19). *)
EXTENDS AnalysisChecks, Loft

ExpectedCount(D) ==
    LET hs == Halves(D)
        np == ProfilePoints - 1
        RECURSIVE W(_)
        W(i) == IF i = 0 THEN 0 ELSE W(i - 1) + 2 * np * (hs[i].n - 1)
        RECURSIVE Pr(_)
        Pr(j) == IF j = 0 THEN 0 ELSE Pr(j - 1) + 2 * np * (Nodes(D.props[j]) - 1) * Blades(D.props[j])
    IN W(Len(hs)) + Pr(Len(D.props))
SurfaceName(S, i) == IF Has(S.events[i].call, "file") THEN FileName(S, i) ELSE "plane.stl"
SurfaceSeen(S, i) == \E j \in 1..(i - 1) : S.events[j].op = "stl" /\ S.events[j].out = "ok" /\ SurfaceName(S, j) = SurfaceName(S, i)
SurfaceClauses(S, i, D, ev) ==
    IF ev.op # "stl" THEN << Answered(ev) >>
    ELSE IF ev.out # "ok" THEN << Answered(ev) >>
    ELSE LET count == ev.stl.count
             want == Surface(D)
             got == ev.stl.faces
             F(k) == RMax(VMaxAbs(want[k][1]), RMax(VMaxAbs(want[k][2]), VMaxAbs(want[k][3])))
             tol == RQ(1, 1000000) \otimes RMax(R1, MaxAbsTo(F, Len(want)))
             inorder == \A k \in 1..Len(want) : SameFace(want[k], got[k], tol)
             (* the order of the triangles in the file means nothing *)
             assigned == /\ \A k \in 1..Len(want) : \E j \in 1..Len(got) : SameFace(want[k], got[j], tol)
                         /\ \A j \in 1..Len(got) : \E k \in 1..Len(want) : SameFace(want[k], got[j], tol)
         IN << C("two triangles per strip between sections", count = ExpectedCount(D) /\ Len(got) = count /\ ev.stl.size = 50 * count),
               C("the triangles of the described surface", Len(got) = Len(want) /\ (inorder \/ assigned)),
               C("the file is where it was asked for", ev.newfiles = (IF SurfaceSeen(S, i) THEN << >> ELSE << SurfaceName(S, i) >>)) >>
=============================================================================
