"""One comparison per property between what a filing reports and what its documents say."""
from common import *
import random as _random


def fact_view(fs, *names):
    """multiset of the named components of the facts"""
    def hz(x):
        if isinstance(x, dict):
            return tuple(sorted((k, hz(v)) for k, v in x.items()))
        if isinstance(x, list):
            return tuple(hz(v) for v in x)
        return x
    return Counter(tuple((n, hz(f[n])) for n in names) for f in fs)


def make(slice_fn, base=None, extra=None):
    """probe runner: open one random filing and compare one slice of it"""
    def run(p, env):
        sp = spec_of(p)
        fl = open_spec(sp, p["style"], env)
        return slice_fn(fl, sp, p)
    return run


def generator(*bases):
    def g(r):
        return case(r, r.choice(bases) if bases else None)
    return g


def no_errors(fl):
    e = observe.obs_errors(fl)
    if e:
        raise Violation("errors-on-valid-filing", e[:5])


# ---------------------------------------------------------------- facts
def s_facts(fl, sp, p):
    o = [observe.obs_fact(f) for f in fl.get_all_facts()]
    m = model.m_facts(sp)
    if len(o) != len(m):
        raise Violation("facts:count", f"{len(o)} facts reported, {len(m)} in the instance\n" + diff(fact_view(o, "id", "concept", "value"), fact_view(m, "id", "concept", "value")))
    names = ("id", "concept", "value", "decimals", "precision")
    must_equal("facts:content", fact_view(o, *names), fact_view(m, *names))
    no_errors(fl)
    return Obs(key_of(p["gseed"], p["style"]), len(m) > 0, facts=len(m), facts_without_id=sum(f["id"] is None for f in m), negative_values=sum(f["value"].startswith("-") for f in m))


def s_context(fl, sp, p):
    o = [observe.obs_fact(f) for f in fl.get_all_facts()]
    m = model.m_facts(sp)
    names = ("id", "concept", "value", "entity", "period", "core")
    must_equal("context:entity-or-period", fact_view(o, *names), fact_view(m, *names))
    no_errors(fl)
    return Obs(key_of(p["gseed"], p["style"]), len(m) > 0, facts=len(m), instants=sum(len(f["period"]) == 1 for f in m), durations=sum(len(f["period"]) == 2 for f in m),
               entities=len({tuple(f["entity"]) for f in m}))


def s_dims(fl, sp, p):
    o = [observe.obs_fact(f) for f in fl.get_all_facts()]
    m = model.m_facts(sp)
    names = ("id", "concept", "value", "dims", "is_core")
    must_equal("dims:content", fact_view(o, *names), fact_view(m, *names))
    no_errors(fl)
    n = sum(len(f["dims"]) for f in m)
    return Obs(key_of(p["gseed"], p["style"]), n > 0, facts=len(m), explicit=sum(v[0] == "E" for f in m for v in f["dims"].values()), typed=sum(v[0] == "T" for f in m for v in f["dims"].values()))


def s_units(fl, sp, p):
    o = [observe.obs_fact(f) for f in fl.get_all_facts()]
    m = model.m_facts(sp)
    names = ("id", "concept", "value", "unit")
    must_equal("unit:content", fact_view(o, *names), fact_view(m, *names))
    for f in fl.get_all_facts():
        u = f.get_unit()
        if u is None:
            continue
        simple = len(u.get_numerators()) == 1 and not u.get_denominators()
        if bool(u.is_simple()) != simple:
            raise Violation("unit:is-simple", f"{u.get_value()}: {u.is_simple()} with {observe.obs_unit(u)}")
    no_errors(fl)
    n = sum(f["unit"] is not None for f in m)
    return Obs(key_of(p["gseed"], p["style"]), n > 0, facts_with_unit=n, divided=sum(f["unit"] is not None and len(f["unit"]["den"]) > 0 for f in m))


# ---------------------------------------------------------------- report elements
def s_elements(fl, sp, p):
    o = observe.obs_elements(fl)
    m = model.m_elements(sp)
    for x in (o, m):
        for d in x.values():
            d.pop("labels")
    must_equal("elements:content", o, m)
    if len(fl.get_all_report_elements()) != len(m):
        raise Violation("elements:duplicates", f"{len(fl.get_all_report_elements())} elements for {len(m)} names")
    no_errors(fl)
    return Obs(key_of(p["gseed"], p["style"]), len(m) > 1, elements=len(m), **{"kind_" + k: v for k, v in Counter(d["kind"] for d in m.values()).items()})


def s_labels(fl, sp, p):
    o = {k: d["labels"] for k, d in observe.obs_elements(fl).items()}
    m = {k: d["labels"] for k, d in model.m_elements(sp).items()}
    must_equal("labels:attached", o, m)
    po, pm = observe.obs_physical(fl), model.m_physical(sp)
    must_equal("labels:network", po["labels"], pm["labels"])
    must_equal("references:network", po["refs"], pm["refs"])
    no_errors(fl)
    return Obs(key_of(p["gseed"], p["style"]), bool(pm["labels"]), labels=sum(pm["labels"].values()), references=sum(pm["refs"].values()))


# ---------------------------------------------------------------- networks
def per_role(fl, sp, kind):
    o = {}
    for c in observe.obs_components(fl):
        o.setdefault(c["uri"], []).append(c[kind])
    m = {}
    for c in model.m_components(sp):
        m.setdefault(c["uri"], []).append(c[kind])
    return o, m


def count_nodes(tree):
    return 1 + sum(count_nodes(k[3]) for k in tree[1])


def s_net(kind, mech):
    def f(fl, sp, p):
        o, m = per_role(fl, sp, kind)
        must_equal(mech, o, m)
        no_errors(fl)
        nets = [t for v in m.values() for t in v if t]
        return Obs(key_of(p["gseed"], p["style"]), bool(nets), networks=len(nets), nodes=sum(count_nodes(t) for n in nets for t in n), empty_components=sum(t is None for v in m.values() for t in v))
    return f


def s_components(fl, sp, p):
    o = sorted((c.get_URI(), c.get_info()) for c in fl.get_all_components())
    m = sorted((r["uri"], r["def"] or "") for r in sp["roles"])
    must_equal("components:list", o, m)
    mc = {c["uri"]: c for c in model.m_components(sp)}
    for c in fl.get_all_components():
        x = mc[c.get_URI()]
        got = [c.has_presentation_network(), c.has_calculation_network(), c.has_definition_network()]
        want = [x[k] is not None for k in ("pres", "cal", "def")]
        must_equal("components:networks", got, want, c.get_URI())
        nets = [n for n in (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()) if n is not None]
        must_equal("components:network-list", len(c.get_networks()), len(nets), c.get_URI())
        for n in nets:
            must_equal("components:link-role", n.get_link_role(), c.get_URI())
        if fl.get_component(c.get_URI()).get_URI() != c.get_URI():
            raise Violation("components:lookup", c.get_URI())
    must_equal("components:uris", sorted(fl.get_all_component_uris()), sorted(r["uri"] for r in sp["roles"]))
    no_errors(fl)
    return Obs(key_of(p["gseed"], p["style"]), bool(m), components=len(m))


def s_physdef(fl, sp, p):
    must_equal("definition:physical", observe.obs_physical(fl)["defs"], model.m_physical(sp)["defs"])
    no_errors(fl)
    n = len(model.m_physical(sp)["defs"])
    return Obs(key_of(p["gseed"], p["style"]), n > 0, physical_definition_networks=n)
