from slices import *
SPEC = dict(
    rule="random sets of role types over the schemas, some with networks of each kind and some without; non-trivial when there is a role",
    assumptions=["every role type is declared once in the schemas"],
    minimum={"components": 1000},
    probes=[Probe("random", 1500*4, 25000*2, generator({"roles": (1, 6), "pres": 0.5, "cal": 0.4, "deff": 0.4}, {"roles": (0, 3), "schemas": (1, 4)}), make(s_components))])
