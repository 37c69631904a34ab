from slices import *
SPEC = dict(
    rule="random presentation forests (deep chains, several roots, ties, shared sub-trees, arcs spread over links and files) per role; non-trivial when a role has a presentation network",
    assumptions=["acyclic networks; arcs are not prohibited or overridden", "siblings with equal order may come in any order"],
    minimum={"networks": 500, "nodes": 2000},
    probes=[Probe("random", 2400*4, 40000*2, generator({"roles": (1, 4), "pres": 1.0, "tree": (2, 12), "abstracts": (1, 5), "p_noorder": 0.1},
                                                   {"roles": (1, 3), "pres": 1.0, "chain": 0.9, "tree": (4, 16), "concepts": (6, 16)},
                                                   {"roles": (1, 3), "pres": 1.0, "dag": 0.7, "split": 0.5, "tree": (4, 12), "concepts": (4, 12)}), make(s_net("pres", "presentation:tree")))])
