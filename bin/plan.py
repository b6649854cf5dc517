"""What each check runs: scenarios per tier and models of the specification."""
TECHNIQUE = ("TLA+ specification checked with TLC; scenarios generated by TLC from the specification are executed on "
             "the code and the recorded histories are validated against the specification by TLC")
LEVEL_NOTE = ("model checking of the specification plus validation by TLC of recorded executions of the code on "
              "generated scenarios; bounded by the generated airplanes, states and histories")
NOT_APPLICABLE = {}
def _session(*faults):
    return ([{"module": "Session", "cfg": "Session_none.cfg"}, {"module": "Session", "cfg": "Session_deep.cfg", "tier": "thorough"}]
            + [{"module": "Session", "cfg": "Session_%s.cfg" % f, "violates": v} for f, v in faults])


def _faults(module, **found):
    """The specified behaviour holds, and every planted fault is found by the named property."""
    return ([{"module": module, "cfg": module + "_none.cfg"}, {"module": module, "cfg": module + "_deep.cfg", "tier": "thorough"}]
            + [{"module": module, "cfg": "%s_%s.cfg" % (module, f), "violates": v} for v, fs in found.items() for f in fs.split()])


# Properties whose statement is also evaluated on the specification's own answers (Laws.tla).
LAWS = "P01 P02 P03 P04 P05 P06 P07 P10 P11 P15 P16 P17 P19 P20 P22 P23 P24 P25".split()
LAW_SCENARIOS = {"quick": 60, "thorough": 600}


PLAN = {
    "P08": {"quick": 256, "thorough": 2560,
            "models": _session(*[(f, "AnswersAreFunctions") for f in ("keepflow", "keepctl", "keepprop", "warm", "sharedmodels")])},
    "P09": {"quick": 256, "thorough": 2560,
            "models": _session(("giveinternals", "AnswersAreFunctions"), ("dirtyargs", "InputsUntouched"),
                               ("noexcrestore", "InputsUntouched"), ("alias", "ResultsStay"))},
    "P06": {"quick": 300, "thorough": 3000},
    "P07": {"quick": 400, "thorough": 4000},
    "P10": {"quick": 300, "thorough": 3000},
    "P18": {"quick": 200, "thorough": 2000},
    "P21": {"quick": 200, "thorough": 2000,
            "models": _session(("halfway", "AnswersAreFunctions"))},
    "P11": {"quick": 200, "thorough": 2000},
    "P12": {"quick": 300, "thorough": 3000,
            "models": _faults("Search", TargetsAreMet="shortstep squared onlypositive lastbutone moved lastguess",
                              FailuresAreTold="nofile", Ends="forever")},
    "P13": {"quick": 200, "thorough": 1200,
            "models": _faults("Stall", FirstToStall="startslate liftbefore worst endofsweep atmaximum",
                              NoStallIsTold="coarse", FlowKept="spoilsflow", Ends="forever")},
    "P14": {"quick": 300, "thorough": 3000,
            "models": _faults("Files", FileHoldsAnswer="keepsold emptyonerror appends lasttable notreplaced",
                              OnlyTheNamedFile="writesdefault", NameChangesNothing="changesanswer")},
    "P19": {"quick": 96, "thorough": 800},
    "P20": {"quick": 64, "thorough": 640},
    "P01": {"quick": 1200, "thorough": 12000},
    "P02": {"quick": 500, "thorough": 6000},
    "P03": {"quick": 400, "thorough": 4000},
    "P04": {"quick": 400, "thorough": 4000},
    "P05": {"quick": 400, "thorough": 4000},
    "P15": {"quick": 400, "thorough": 4000},
    "P16": {"quick": 400, "thorough": 4000},
    "P17": {"quick": 300, "thorough": 3000},
    "P24": {"quick": 300, "thorough": 3000},
    "P22": {"quick": 400, "thorough": 4000},
    "P25": {"quick": 400, "thorough": 4000,
            "models": [{"module": "Construct", "cfg": "Construct_chains.cfg"}] + _faults("Construct", PartsAsSaid="keepsold tipresets bothistip onehalf everywing firstwins aliased",
                              PlacedAsSaid="snapshot", CentreAsSaid="shared cgresets", RefsAsSaid="refskeep")},
    "P23": {"quick": 800, "thorough": 8000},
}
