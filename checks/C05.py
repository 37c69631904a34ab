from slices import *
SPEC = dict(
    rule="random taxonomies over one to four schemas with concepts, abstracts, hypercubes, dimensions, members, line items; non-trivial with more than one element",
    assumptions=["valid XBRL 2.1 documents; the expected content comes from the abstract description the documents are rendered from"],
    minimum={"elements": 1000},
    probes=[Probe("random", 1200*4, 25000*2, generator({}, {"schemas": (1, 4), "concepts": (4, 16), "typed": (0, 2), "dims": (0, 3), "cubes": (0, 2), "lineitems": (0, 2), "abstracts": (0, 5), "members": (0, 6)}), make(s_elements))])
