from slices import *


def both(fl, sp, p):
    s_physdef(fl, sp, p)
    return s_net("def", "definition:tree")(fl, sp, p)


SPEC = dict(
    rule="random definition arcs of several dimensional arcroles per role and link; the combined network of each role and the physical network of each link and arcrole are compared; non-trivial when a role has a definition network",
    assumptions=["acyclic networks; arcs are not prohibited or overridden", "siblings with equal order may come in any order"],
    minimum={"networks": 500, "nodes": 2000},
    probes=[Probe("random", 2400*4, 40000*2, generator({"roles": (1, 4), "deff": 1.0, "tree": (2, 12), "p_noorder": 0.1, "dims": (0, 3), "cubes": (0, 2), "typed": (0, 2)},
                                                   {"roles": (1, 3), "deff": 1.0, "chain": 0.9, "tree": (4, 16), "members": (4, 8)},
                                                   {"roles": (1, 3), "deff": 1.0, "dag": 0.7, "split": 0.5, "tree": (4, 12), "members": (2, 6)}), make(both))])
