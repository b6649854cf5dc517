--------------------------------- MODULE Gen ---------------------------------
(* Writes the scenarios of a property: PROPERTY, COUNT, SEED, OUT. *)
EXTENDS ScenariosAssembly, Json, IOUtils
Count == atoi(IOEnv.COUNT)
P == IOEnv.PROPERTY
Number == CHOOSE n \in 1..25 : P = "P" \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Scenario(k) ==
    LET s == Mix(Mix(atoi(IOEnv.SEED), 7919 * Number), k)
        id == P \o "-" \o ToString(k)
    IN CASE P = "P01" -> ScPlacement(id, s)
         [] P = "P02" -> ScSections(id, s)
         [] P = "P03" -> ScAirfoils(id, s)
         [] P = "P04" -> IF k % 3 = 0 THEN ScControlEdges(id, s) ELSE ScControls(id, s)
         [] P = "P05" -> ScLoads(id, s)
         [] P = "P06" -> ScViews(id, s)
         [] P = "P07" -> ScTransform(id, s, k)
         [] P = "P10" -> ScDefaults(id, s, k)
         [] P = "P18" -> ScFiles(id, s)
         [] P = "P21" -> ScInvalid(id, s, k)
         [] P = "P11" -> ScDerivs(id, s, k)
         [] P = "P12" -> ScTargets(id, s, k)
         [] P = "P13" -> ScStall(id, s, k)
         [] P = "P14" -> ScSaved(id, s, k)
         [] P = "P19" -> ScSurface(id, s, k)
         [] P = "P20" -> ScCentre(id, s, k)
         [] P = "P08" -> ScWalk(id, s, k)
         [] P = "P09" -> ScKept(id, s, k)
         [] P = "P15" -> ScBlades(id, s)
         [] P = "P16" -> IF k % 4 = 0 THEN ScSameRate(id, s) ELSE ScOperating(id, s)
         [] P = "P17" -> IF k % 2 = 0 THEN ScSlipstream(id, s) ELSE ScImmersed(id, s)
         [] P = "P24" -> ScPropLoads(id, s)
         [] P = "P22" -> ScFlow(id, s)
         [] P = "P25" -> ScAssembly(id, s)
         [] P = "P23" -> ScReferences(id, s)
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Count |-> Scenario(k)])
=============================================================================
