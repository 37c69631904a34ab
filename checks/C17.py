"""Two ways of writing the same filing down are the same filing."""
from snap import *


def g(r):
    c = case(r)
    c["style2"] = rand_style(r)
    return c


def run(p, env):
    sp = spec_of(p)
    a = full(open_spec(sp, {}, env))
    b = full(open_spec(sp, p["style"], env))
    c = full(open_spec(sp, p["style2"], env))
    check("syntax:style", b, a, str(p["style"]))
    check("syntax:style", c, a, str(p["style2"]))
    must_equal("syntax:facts-against-model", a["facts"], want(sp)["facts"])
    return Obs(key_of(p), bool(p["style"]) and bool(p["style2"]), comparisons=2, facts=len(a["facts"]), styles=len(p["style"]) + len(p["style2"]))


SPEC = dict(
    rule="every random filing is opened plainly written and in two random styles: namespace prefixes and default namespaces, prefixes swapped between documents, comments and processing instructions anywhere, attribute order, whitespace, CDATA and character references, encodings, order of contexts, facts, links and references, sharing of locators and arcs; non-trivial when both styles differ from the plain one",
    assumptions=["the parts of the styles that reorder siblings keep the order attribute"],
    minimum={"comparisons": 1000, "facts": 3000},
    probes=[Probe("styles", 3000, 30000, g, run)])
