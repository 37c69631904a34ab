from slices import *
SPEC = dict(
    rule="random filings with simple, divided and multiplied units; non-trivial when some fact has a unit",
    assumptions=["valid XBRL 2.1 documents; the expected content comes from the abstract description the documents are rendered from"],
    minimum={"facts_with_unit": 300, "divided": 50},
    probes=[Probe("random", 1200*4, 25000*2, generator({"units": (2, 6), "facts": (5, 20), "multi_unit": 0.6, "concepts": (5, 12)}, {"units": (1, 2)}), make(s_units))])
