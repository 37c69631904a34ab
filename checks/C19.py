"""Lists and lookups: every way of asking a filing for something gives the same thing."""
from slices import *
import posixpath
from lxml import etree
from brel import QName
from brel.characteristics import Aspect
from brel.reportelements import Abstract, Concept, Dimension, Hypercube, LineItems, Member
import gen as _gen
import random

CLS = {"concept": Concept, "abstract": Abstract, "hypercube": Hypercube, "dimension": Dimension, "lineitems": LineItems, "member": Member}


def prefixes(files):
    out = {}
    for k, v in files.items():
        for e in etree.fromstring(v).iter():
            for p, u in (e.nsmap or {}).items():
                if p:
                    out.setdefault(p, set()).add(u)
    out.setdefault("xml", set()).add("http://www.w3.org/XML/1998/namespace")
    return out


def ask(f, *a):
    """the answer, or None when there is none (nothing, or an error that says so)"""
    try:
        return f(*a)
    except (ValueError, KeyError):
        return None


def same(mech, got, want, what):
    if got is not want:
        raise Violation(mech, f"{what}: got {got if got is None else str(got.get_name())}, expected {want if want is None else str(want.get_name())}")


def ids(xs):
    return Counter(id(x) for x in xs)


def run(p, env):
    r = random.Random(p["gseed"])
    sp = spec_of(p)
    files = render.render(sp, p["style"])
    d = env.dir()
    render.write(files, d)
    fl = Filing.open(os.path.join(d, sp["inst"]))
    els = fl.get_all_report_elements()
    m = model.m_elements(sp)
    by = {observe.ck(e.get_name()): e for e in els}
    must_equal("query:elements", sorted(by), sorted(m))
    # ---- lists by kind
    lists = {"concept": fl.get_all_concepts(), "abstract": fl.get_all_abstracts(), "hypercube": fl.get_all_hypercubes(), "dimension": fl.get_all_dimensions(),
             "lineitems": fl.get_all_line_items(), "member": fl.get_all_members()}
    for k, xs in lists.items():
        must_equal("query:kind-" + k, sorted(observe.ck(x.get_name()) for x in xs), sorted(n for n, v in m.items() if v["kind"] == k))
        if any(x is not by[observe.ck(x.get_name())] or type(x) is not CLS[k] for x in xs):
            raise Violation("query:other-object", k)
    # ---- facts
    facts = fl.get_all_facts()
    mf = model.m_facts(sp)
    must_equal("query:core-facts", ids(fl.get_all_core_facts()), ids(f for f in facts if not any(not a.is_core() for a in f.get_aspects())))
    must_equal("query:number-of-core-facts", len(fl.get_all_core_facts()), sum(f["is_core"] for f in mf))
    rep = fl.get_all_reported_concepts()
    must_equal("query:reported-concepts", sorted(observe.ck(c.get_name()) for c in rep), sorted({f["concept"] for f in mf}))
    per = Counter(f["concept"] for f in mf)
    pm = prefixes(files)
    asked = unknown = ambiguous = 0
    for n, e in by.items():
        q = e.get_name()
        loc, uri = q.local_name, q.uri
        concept = e if isinstance(e, Concept) else None
        cases = [(q, e), (QName(uri, "zz", loc), e), (n, e)]
        for pre, uris in pm.items():
            cand = [by[f"{{{u}}}{loc}"] for u in uris if f"{{{u}}}{loc}" in by]
            if cand and (uri in uris or r.random() < 0.3):
                cases.append((f"{pre}:{loc}", cand))
        cases.append((loc, [x for k, x in by.items() if k.endswith("}" + loc)]))
        # names nothing has
        bad = _gen.near(r, loc).replace(" ", "").replace(":", "")
        if bad and f"{{{uri}}}{bad}" not in by:
            cases += [(QName(uri, q.prefix, bad), None), (f"{{{uri}}}{bad}", None)]
            if bad not in {k.split("}")[1] for k in by}:
                cases += [(bad, None), (f"{q.prefix}:{bad}", None)]
        cases += [(QName(uri + "~", q.prefix, loc), None), (f"{{{uri}~}}{loc}", None), ("nosuchprefix:" + loc, None)]
        for key, want in cases:
            if isinstance(want, list):
                ambiguous += len(want) > 1
                wc = [x for x in want if isinstance(x, Concept)]
                want1 = want[0] if len(want) == 1 else None
                wantc = wc[0] if len(wc) == 1 else None
            else:
                want1, wantc = want, (want if isinstance(want, Concept) else None)
            if isinstance(key, QName) and f"{{{key.uri}}}{key.local_name}" in by and not isinstance(want1, Concept):
                # a qualified name of something that is no concept
                wantc = None
            asked += 1
            unknown += want1 is None
            same("query:by-name", ask(fl.get_report_element_by_name, key), want1, f"report element {key}")
            c = ask(fl.get_concept_by_name, key)
            same("query:concept-by-name", c, wantc, f"concept {key}")
            same("query:concept-by-name", ask(fl.get_concept, key), wantc, f"concept {key}")
            fs = ask(fl.get_facts_by_concept_name, key)
            want_f = None if wantc is None else ids(f for f in facts if f.get_concept() is wantc or observe.ck(f.get_concept().get_name()) == observe.ck(wantc.get_name()))
            if (None if fs is None else ids(fs)) != (want_f if want_f is not None else None) and not (want_f is None and fs == []):
                raise Violation("query:facts-by-name", f"{key}: {fs and len(fs)} facts, expected {want_f and sum(want_f.values())}")
            if wantc is not None and len(fs) != per[observe.ck(wantc.get_name())]:
                raise Violation("query:facts-by-name", f"{key}: {len(fs)} facts, the instance has {per[observe.ck(wantc.get_name())]}")
        if concept is not None:
            must_equal("query:facts-by-concept", ids(fl.get_facts_by_concept(concept)), ids(fl.get_facts_by_concept_name(q)), n)
    # ---- the parts of a fact
    for f in facts:
        asp = f.get_aspects()
        ctx = f.get_context()
        if [a for a in asp] != [a for a in ctx.get_aspects()]:
            raise Violation("query:aspects", str(f.get_id()))
        for a, direct in ((Aspect.ENTITY, f.get_entity()), (Aspect.PERIOD, f.get_period()), (Aspect.UNIT, f.get_unit())):
            if f.get_characteristic(a) is not direct or ctx.get_characteristic(a) is not direct or ctx.has_characteristic(a) != (direct is not None) or (a in asp) != (direct is not None):
                raise Violation("query:characteristic", f"{f.get_id()} {a.get_name()}: {direct}")
        if f.get_characteristic(Aspect.CONCEPT).get_value() is not f.get_concept() or ctx.get_concept().get_value() is not f.get_concept() or by.get(observe.ck(f.get_concept().get_name())) is not f.get_concept():
            raise Violation("query:concept-of-fact", str(f.get_id()))
        for a in asp:
            c = f.get_characteristic(a)
            if c is None or c.get_aspect() != a or not ctx.has_characteristic(a):
                raise Violation("query:characteristic", f"{f.get_id()} {a.get_name()}")
            if not a.is_core() and by[f.get_characteristic(a).get_aspect() and observe.ck(c.get_dimension().get_name())] is not c.get_dimension():
                raise Violation("query:dimension-of-fact", f"{f.get_id()} {a.get_name()}")
        if f.is_core() == ctx.has_noncore_dimensions():
            raise Violation("query:is-core", str(f.get_id()))
    # ---- components
    comps = fl.get_all_components()
    uris = [c.get_URI() for c in comps]
    must_equal("query:component-uris", fl.get_all_component_uris(), uris)
    for c in comps:
        if fl.get_component(c.get_URI()) is not c:
            raise Violation("query:component", c.get_URI())
        for u in (c.get_URI() + "/", c.get_URI()[:-1], c.get_URI().upper(), _gen.near(r, c.get_URI()), c.get_info()):
            if u not in uris and ask(fl.get_component, u) is not None:
                raise Violation("query:component", f"{u!r} found")
    # ---- labels
    labs = Counter((str(x["report_element"].clark_notation()),) + tuple(sorted((k, str(v)) for k, v in x.items() if k != "report_element")) for x in fl.get_all_labels())
    exp = Counter((n,) + tuple(sorted((k, str(v)) for k, v in l.convert_to_dict().items() if k != "report_element")) for n, e in by.items() for l in e.get_labels())
    must_equal("query:labels", labs, exp)
    for e in els:
        for role in {l.get_label_role() for l in e.get_labels()} | {_gen.LABEL_ROLES[3]}:
            if e.has_label_with_role(role) != any(l.get_label_role() == role for l in e.get_labels()):
                raise Violation("query:has-label", role)
        for lang in {l.get_language() for l in e.get_labels()} | {"en", "e", "de-CH"}:
            if e.has_label_with_language(lang) != any(l.get_language() == lang for l in e.get_labels()):
                raise Violation("query:has-label", lang)
        x = e.select_main_label()
        ls = e.get_labels()
        if ls:
            langs = [l.get_language() for l in ls]
            want = next((l for g in ("en", "en-US", "en-GB", "EN", "EN-US", "EN-GB") for l in ls if l.get_language() == g), ls[0])
            if not any(x is l for l in ls) or x.get_language() != want.get_language():
                raise Violation("query:main-label", f"{x.get_language()} of {langs}")
    return Obs(key_of(p["gseed"], p["style"]), bool(els), lookups=asked, unknown=unknown, ambiguous=ambiguous, facts=len(facts))


def g(r):
    return case(r, r.choice([{}, {"schemas": (2, 4), "same_names": 0.5}, {"schemas": (2, 3), "concepts": (4, 9)}]))


SPEC = dict(
    rule="random filings; every report element asked for by qualified name, clark notation, every prefix bound in the documents, local name, and names that nearly match; lists by kind, facts by concept, characteristics, components and labels against the full lists; non-trivial with at least one report element",
    assumptions=["a name that is unknown or stands for several things gives an error or nothing"],
    minimum={"lookups": 20000, "unknown": 5000, "ambiguous": 200, "facts": 2000},
    probes=[Probe("queries", 1200, 15000, g, run)])
