"""What is claimed for each property (MANIFEST.json is generated from this)."""
BASE = ("static analysis: gated abstract summaries (value, exceptions, effects and their order, loops as folds/quantifiers) of the current "
        "source, compared semantically with contract summaries")
NOTE = ("Decides the listed obligations for all inputs of the anchored functions, modulo the library models; "
        "an obligation the comparison cannot settle is reported as undecided and not as a violation.")
EXTRA = {
    "C12": "; swallowed-exception analysis of every operation on the repair path",
    "C17": "; class-definition lint",
    "C23": "; call-graph write-effect analysis from the repair entry point",
    "C25": "; source lint for clocks, process values, directory and set order over everything reachable from repair and show",
    "C26": "; interprocedural alias analysis of cached results, long-lived-state and mutable-default lint",
    "C27": "; standard-output effect analysis of everything reachable from show",
    "C28": "; call-graph write-effect and process-effect analysis from the show and lddtree entry points",
    "C29": "; entry-point lint",
    "C31": "; program-start lint (no shell, no command strings), swallowed-exception analysis",
    "C32": "; context-manager typestate lint, finally analysis",
    "C33": "; consistency rules evaluated on the shipped JSON tables",
    "C02": "; consistency rules on the shipped JSON tables", "C04": "; consistency rules on the shipped JSON tables",
    "C06": "; consistency rules on the shipped JSON tables", "C35": "; consistency rules on the shipped JSON tables",
}
IDS = [f"C{i:02}" for i in range(1, 36)]
CLAIMS = {i: dict(technique=BASE + EXTRA.get(i, ""), level="other", note=NOTE) for i in IDS}
