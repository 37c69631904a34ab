"""Network navigation: the lists, dictionaries and node accessors of a network show one tree."""
from slices import *
from brel.networks import (CalculationNetwork, DefinitionNetwork, FootnoteNetwork, LabelNetwork, PresentationNetwork, ReferenceNetwork)
from brel.reportelements import Concept, IReportElement
from brel.resource import IResource
from brel import Fact

LB = "{http://www.xbrl.org/2003/linkbase}"
KIND = {PresentationNetwork: "presentation", CalculationNetwork: "calculation", DefinitionNetwork: "definition", LabelNetwork: "label", ReferenceNetwork: "reference", FootnoteNetwork: "footnote"}
WHAT = {"report element": IReportElement, "fact": Fact, "resource": IResource}


def bad(what, detail):
    raise Violation("navigate:" + what, detail)


def preorder(n, out, depth=0):
    if depth > 60:
        bad("cycle", "deeper than 60")
    out.append(n)
    for c in n.get_children():
        preorder(c, out, depth + 1)


def uniq(xs):
    return Counter(id(x) for x in {id(x): x for x in xs}.values())


def target(n):
    got = {}
    for k, f in (("report element", n.get_report_element), ("fact", n.get_fact), ("resource", n.get_resource)):
        try:
            got[k] = f()
        except ValueError:
            pass
    if list(got) != [n.points_to()]:
        bad("points-to", f"points to {n.points_to()}, but gives {list(got)}")
    if not isinstance(got[n.points_to()], WHAT[n.points_to()]):
        bad("points-to", f"{type(got[n.points_to()])}")
    return got[n.points_to()]


def same_dict(n, d):
    want = {"points_to": n.points_to(), "arc_role": n.get_arc_role(), "arc_name": n.get_arc_name().prefix_local_name_notation(), "link_role": n.get_link_role(),
            "link_name": n.get_link_name().prefix_local_name_notation(), "order": n.get_order()}
    for k, v in want.items():
        if d.get(k) != v:
            bad("dictionary", f"{k}: {d.get(k)!r}, the node says {v!r}")
    ch = n.get_children()
    if len(d["children"]) != len(ch):
        bad("dictionary", f"{len(d['children'])} children, the node has {len(ch)}")
    for c, x in zip(ch, d["children"]):
        same_dict(c, x)


def network(net, roles):
    kind = KIND[type(net)]
    roots = net.get_roots()
    if not roots:
        bad("empty", kind)
    nodes = []
    for x in roots:
        preorder(x, nodes)
    u = uniq(nodes)
    allnodes = net.get_all_nodes()
    if Counter(map(id, allnodes)) != u:
        bad("all-nodes", f"{len(allnodes)} nodes listed ({len(uniq(allnodes))} of them distinct), the {kind} tree has {len(u)}")
    try:
        root = net.get_root()
        if len(roots) != 1 or root is not roots[0]:
            bad("root", f"{len(roots)} roots")
    except ValueError:
        if len(roots) == 1:
            bad("root", "a single root is refused")
    seen = set()
    for n in nodes:
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n.get_link_role() != net.get_link_role() or n.get_link_name() != net.get_link_name():
            bad("link", f"node {n.get_link_role()} {n.get_link_name()}, network {net.get_link_role()} {net.get_link_name()}")
        if n.get_arc_name() != net.get_arc_name() or n.get_arc_name().clark_notation() != LB + kind + "Arc":
            bad("arc-name", f"node {n.get_arc_name()}, network {net.get_arc_name()}")
        if n.is_leaf() != (len(n.get_children()) == 0):
            bad("leaf", f"{len(n.get_children())} children")
        sub = []
        preorder(n, sub)
        d = {id(x) for x in n.get_all_descendants()}
        if len(n.get_all_descendants()) != len(d) or d | {id(n)} != {id(x) for x in sub}:
            bad("descendants", f"{len(d)} listed, {len(uniq(sub))} in the subtree")
        t = target(n)
        if kind in ("presentation", "calculation", "definition") and n.points_to() != "report element":
            bad("points-to", f"{kind} node points to {n.points_to()}")
        if kind == "calculation" and (n.get_concept() is not t or not isinstance(t, Concept)):
            bad("concept", str(t))
        # the parents' order
        o = [c.get_order() for c in n.get_children()]
        if o != sorted(o):
            bad("order", str(o))
    if net.get_link_name().clark_notation() != LB + kind + "Link":
        bad("link", str(net.get_link_name()))
    must_equal("navigate:arc-roles", sorted(net.get_arc_roles()), sorted({n.get_arc_role() for n in nodes}))
    if net.is_physical() and len(set(net.get_arc_roles())) != 1:
        bad("arc-roles", f"a physical network with {net.get_arc_roles()}")
    d = net.convert_to_dict()
    must_equal("navigate:dictionary", {k: d[k] for k in ("link_role", "link_name", "is_physical")},
               {"link_role": net.get_link_role(), "link_name": net.get_link_name().prefix_local_name_notation(), "is_physical": net.is_physical()})
    if len(d["roots"]) != len(roots):
        bad("dictionary", "roots")
    for x, y in zip(roots, d["roots"]):
        same_dict(x, y)
    return len(u)


def run(p, env):
    sp = spec_of(p)
    fl = open_spec(sp, p["style"], env)
    nodes, kinds = 0, Counter()
    for c in fl.get_all_components():
        nets = c.get_networks()
        must_equal("navigate:networks", [id(n) for n in nets], [id(n) for n in (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()) if n is not None])
        d = c.convert_to_dict()
        must_equal("navigate:component-dictionary", [d["network-identifier"], d["info"], d["presentation-network"], d["calculation-network"]],
                   [c.get_URI(), c.get_info(), c.has_presentation_network(), c.has_calculation_network()])
        must_equal("navigate:component-dictionary", [v for k, v in d.items() if k in ("definition-network", "definintion-network")], [c.has_definition_network()])
        for n in nets:
            if n.is_physical() and isinstance(n, DefinitionNetwork):
                bad("physical", "the definition network of a component is physical")
            nodes += network(n, None)
            kinds[KIND[type(n)]] += 1
    for n in fl.get_all_physical_networks():
        if not n.is_physical():
            bad("physical", "listed but not physical")
        nodes += network(n, None)
        kinds[KIND[type(n)]] += 1
    return Obs(key_of(p["gseed"], p["style"]), nodes > 0, nodes=nodes, **{k + "_networks": v for k, v in kinds.items()})


def g(r):
    return case(r, r.choice([{"roles": (1, 4), "tree": (3, 12), "dag": 0.4, "split": 0.4}, {"footnotes": 0.8, "labels": 0.8, "refs": 0.6, "p_noid": 0.1}, {"roles": (1, 3), "tree": (4, 16), "chain": 0.8}]))


SPEC = dict(
    rule="random filings with networks of all kinds; every network walked from its roots and compared with its lists, its dictionary and the accessors of each of its nodes; non-trivial with at least one node",
    assumptions=["whether a node counts among its own descendants is left open"],
    minimum={"nodes": 20000, "footnote_networks": 100, "label_networks": 500, "reference_networks": 200},
    probes=[Probe("walks", 2500, 25000, g, run)])
