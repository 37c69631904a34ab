from slices import *
SPEC = dict(
    rule="random filings with several entities (schemes and identifiers) and instant/duration periods; non-trivial when there is a fact",
    assumptions=["valid XBRL 2.1 documents; the expected content comes from the abstract description the documents are rendered from"],
    minimum={"facts": 500, "instants": 100, "durations": 100},
    probes=[Probe("random", 1200*4, 25000*2, generator({}, {"contexts": (3, 10), "entities": (2, 4)}), make(s_context))])
