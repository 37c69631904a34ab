"""Reads an opened filing through its public API into plain canonical data."""
import json
from collections import Counter

from brel.characteristics import (Aspect, ExplicitDimensionCharacteristic, TypedDimensionCharacteristic)
from brel.reportelements import (Abstract, Concept, Dimension, Hypercube, LineItems, Member)
from brel.networks import (CalculationNetwork, DefinitionNetwork, FootnoteNetwork, LabelNetwork, PresentationNetwork, ReferenceNetwork)

KINDS = [(Concept, "concept"), (Hypercube, "hypercube"), (Dimension, "dimension"), (LineItems, "lineitems"), (Member, "member"), (Abstract, "abstract")]


def ck(q):
    return q.clark_notation()


def kind(re):
    for k, n in KINDS:
        if type(re) is k:
            return n
    return type(re).__name__


def obs_period(p):
    if p is None:
        return None
    if p.is_instant():
        return [p.get_instant_period().isoformat()]
    return [p.get_start_period().isoformat(), p.get_end_period().isoformat()]


def obs_unit(u):
    if u is None:
        return None
    return {"num": sorted(map(ck, u.get_numerators())), "den": sorted(map(ck, u.get_denominators())), "name": u.get_value()}





def num(x):
    return None if x is None else float(x)


def obs_fact(f):
    dims = {}
    core = []
    for a in f.get_aspects():
        ch = f.get_characteristic(a)
        if a.is_core():
            core.append(a.get_name())
        if isinstance(ch, ExplicitDimensionCharacteristic):
            dims[ck(ch.get_dimension().get_name())] = ["E", ck(ch.get_member().get_name())]
        elif isinstance(ch, TypedDimensionCharacteristic):
            dims[ck(ch.get_dimension().get_name())] = ["T", ch.get_value()]
    e = f.get_entity()
    return {"id": f.get_id(), "value": str(f), "concept": ck(f.get_concept().get_name()), "period": obs_period(f.get_period()),
            "entity": None if e is None else [e.get_schema(), e.get_value().split("}", 1)[-1] if e.get_value().startswith("{") else e.get_value()],
            "unit": obs_unit(f.get_unit()), "dims": dims, "core": sorted(core), "is_core": f.is_core(), "decimals": num(f.get_decimals()), "precision": num(f.get_precision())}


def obs_label(l):
    return (l.get_label_role(), l.get_language(), l.get_content())


def obs_element(re):
    d = {"kind": kind(re), "id": re.get_id(), "labels": Counter(obs_label(l) for l in re.get_labels())}
    if isinstance(re, Concept):
        d["attrs"] = [re.get_period_type(), re.get_balance_type(), bool(re.is_nillable()), re.get_data_type()]
    if isinstance(re, Dimension):
        d["typed"] = None if re.is_explicit() else ck(re.get_type())
    return d


def obs_elements(fl):
    return {ck(re.get_name()): obs_element(re) for re in fl.get_all_report_elements()}


MAX_DEPTH = 60      # deeper than anything that is generated


class Bad(Exception):
    pass


def node_key(n):
    pt = n.points_to()
    if pt == "report element":
        return ck(n.get_report_element().get_name())
    if pt == "fact":
        return "fact:" + str(n.get_fact().get_id())
    r = n.get_resource()
    c = r.get_content()
    if isinstance(c, dict):
        c = tuple(sorted((str(k), str(v)) for k, v in c.items()))
    return ("res", r.get_role(), getattr(r, "get_language", lambda: None)(), c)


def obs_tree(n, extra, depth=0, arcrole=False, root=True):
    """[key, [[order, extra, arcrole?, subtree], ...]] with children in canonical order; raises Bad when the reported order is not non-decreasing"""
    if depth > MAX_DEPTH:
        raise Bad(f"tree deeper than {MAX_DEPTH}")
    ch = n.get_children()
    orders = [c.get_order() for c in ch]
    if any(a > b for a, b in zip(orders, orders[1:])):
        raise Bad(f"children of {node_key(n)} not sorted by order: {orders}")
    kids = []
    for c in ch:
        kids.append([float(c.get_order()), extra(c), c.get_arc_role() if arcrole else None, obs_tree(c, extra, depth + 1, arcrole, False)])
    kids.sort(key=repr)
    return [node_key(n), kids]


def obs_net(net, extra, arcrole=False):
    if net is None:
        return None
    return sorted((obs_tree(r, extra, 0, arcrole) for r in net.get_roots()), key=repr)


def ex_pres(n):
    return n.get_preferred_label_role()


def ex_calc(n):
    return float(n.get_weight())


def ex_none(n):
    return None


def obs_components(fl):
    out = []
    for c in fl.get_all_components():
        out.append({"uri": c.get_URI(), "info": c.get_info(),
                    "pres": obs_net(c.get_presentation_network(), ex_pres),
                    "cal": obs_net(c.get_calculation_network(), ex_calc),
                    "def": obs_net(c.get_definition_network(), ex_none, True)})
    return sorted(out, key=repr)


def flat_edges(net, parent_key=node_key):
    """multiset of (parent, child) over a physical network"""
    out = Counter()

    def walk(n, depth):
        if depth > MAX_DEPTH:
            raise Bad(f"tree deeper than {MAX_DEPTH}")
        for c in n.get_children():
            out[(parent_key(n), parent_key(c))] += 1
            walk(c, depth + 1)
    for r in net.get_roots():
        walk(r, 0)
    return out


def foot_key(n):
    # ids of facts are only unique within a document
    return "fact:" + json.dumps(obs_fact(n.get_fact()), sort_keys=True, default=repr) if n.points_to() == "fact" else node_key(n)


def obs_physical(fl):
    labels, refs, foots, defs = Counter(), Counter(), Counter(), []
    for n in fl.get_all_physical_networks():
        if isinstance(n, LabelNetwork):
            labels.update(flat_edges(n))
        elif isinstance(n, ReferenceNetwork):
            refs.update(flat_edges(n))
        elif isinstance(n, FootnoteNetwork):
            for (a, b), k in flat_edges(n, foot_key).items():
                foots[(n.get_link_role(), a, b)] += k
        elif isinstance(n, DefinitionNetwork):
            defs.append([n.get_link_role(), obs_net(n, ex_none, True)])
    return {"labels": labels, "refs": refs, "foots": foots, "defs": sorted(defs, key=repr)}


def obs_errors(fl):
    return sorted(str(e.get_full_error_code()) for e in fl.get_all_errors())


def observe(fl):
    return {"facts": [obs_fact(f) for f in fl.get_all_facts()], "elements": obs_elements(fl), "components": obs_components(fl),
            "physical": obs_physical(fl), "errors": obs_errors(fl)}
