from slices import *
SPEC = dict(
    rule="random filings (taxonomy, contexts, units, facts with and without ids, nil facts, duplicates) written in random syntactic styles; a case is non-trivial when the instance holds at least one fact",
    assumptions=["the instances are valid XBRL 2.1 without tuples; the expected facts come from the abstract description the documents are rendered from"],
    minimum={"facts": 500},
    probes=[Probe("random", 1500*4, 30000*2, generator({}, {"facts": (5, 40), "p_noid": 0.5}, {"p_nil": 0.5}), make(s_facts))])
