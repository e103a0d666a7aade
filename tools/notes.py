TECH[""] = "model-based property testing of generated histories against a reference model"
TECH["C18"] = "property-based testing of generated compiler flags, environments and programs, and differential histories with diagnostics on"
TECH["C16"] = "property-based testing over generated machine code, against the function itself before mocking (differential)"
TECH["C03"] = "model-based property testing of generated scope trees, and differential testing against convey.Convey"
TECH["C12"] = "property-based testing of generated definitions against an independent predicate of well-typedness"
TECH["C13"] = "property-based testing over generated type structures and instances"
for _i in ("C06", "C08", "C17"):
    TECH[_i] = "model-based property testing of generated histories and schedules; contention testing with outcomes that follow from the arguments"
TECH["C19"] = "model-based property testing of generated histories in generated build configurations"
NOTES[""] = ("Random search with shrinking over generated programs, targets and histories: no violation among the cases of the evidence file, within the generator's domain (DESIGN.md). "
             "Trusts the Go toolchain, the reference model and the harness; runs on a runtime overlay that preempts by signals only.")
NA = {}
