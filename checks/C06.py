from slices import *
SPEC = dict(
    rule="random label and reference linkbases (roles, languages, markup characters, shared locators and arcs); non-trivial when there is a label",
    assumptions=["valid XBRL 2.1 documents; the expected content comes from the abstract description the documents are rendered from"],
    minimum={"labels": 1000, "references": 100},
    probes=[Probe("random", 1200*4, 25000*2, generator({"labels": 1.0, "refs": 0.6}, {"labels": 0.7, "schemas": (2, 3), "concepts": (4, 12)}), make(s_labels))])
