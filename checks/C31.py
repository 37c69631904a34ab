"""Defects of link bases, roles and schemas are reported where they are and cost no more than what is damaged."""
import glob
import random

from lxml import etree
from urllib.parse import unquote

from C27 import check_lists, code_of, judge, local
from slices import *

L = "{http://www.xbrl.org/2003/linkbase}"
X = "{http://www.w3.org/1999/xlink}"
LANG = "{http://www.w3.org/XML/1998/namespace}lang"
KINDS = ["loc", "arc-dup", "arc-from", "arc-to", "link-role", "link-type", "lang", "resource", "used-on", "no-role-type", "period", "balance", "nillable", "type", "domain"]


def id_of(fragment):
    """the id that a fragment of a reference stands for"""
    fragment = unquote(fragment)
    return fragment[8:-1] if fragment.startswith("element(") and fragment.endswith(")") else fragment


def owner(e):
    return None if e is None else (local(e),) + tuple(sorted((k, v) for k, v in e.attrib.items()))


def links_of(roots):
    return [e for r in roots for e in r.iter() if isinstance(e.tag, str) and e.get(X + "type") == "extended" and e.tag.startswith(L)]


def typed(link, *kinds):
    return [e for e in link.iter() if isinstance(e.tag, str) and e.get(X + "type") in kinds]


def lang_of(e):
    while e is not None:
        if e.get(LANG) is not None:
            return e.get(LANG)
        e = e.getparent()
    return None


def damage(D, kind):
    r, sp = D.r, D.sp
    links = D.links

    def pick(xs):
        xs = [x for x in xs if id(x) not in D.touched]
        if not xs:
            return None
        x = r.choice(xs)
        D.touched.add(id(x))
        D.keep.append(x)
        return x
    if kind == "loc":
        x = pick([e for l in links for e in typed(l, "locator")])
        if x is None:
            return False
        f, _, i = x.get(X + "href").strip().partition("#")
        n = r.choice([i + "_nix", "nix", i[:-1], i + i, "_" + i])
        if not n or id_of(n) in D.ids or n in D.names:
            return False
        x.set(X + "href", f + "#" + n)
        return True
    if kind in ("arc-dup", "arc-from", "arc-to"):
        x = pick([e for l in links for e in typed(l, "arc")])
        if x is None:
            return False
        if kind == "arc-dup":
            y = etree.fromstring(etree.tostring(x, encoding="utf-8"))
            y.tail = None
            if r.random() < 0.5 and y.get("order") is not None:
                y.set("order", str(float(y.get("order")) + 1))
            q = x.getparent()
            q.insert(q.index(x) + 1 if r.random() < 0.5 else len(q), y)
            D.touched.add(id(y))
            D.keep.append(y)
        else:
            x.set(X + kind[4:], r.choice(["nix", x.get(X + kind[4:]) + "X"]))
        return True
    if kind in ("link-role", "link-type"):
        x = pick(links)
        if x is None:
            return False
        if kind == "link-role":
            del x.attrib[X + "role"]
        else:
            x.tag = L + r.choice(["genericLink", "fooLink", "link", "linkbase2"])
        return True
    if kind in ("lang", "resource"):
        x = pick([e for l in links for e in typed(l, "resource") if kind == "resource" or local(l) == "labelLink" and e.get(LANG) is not None and lang_of(e.getparent()) is None])
        if x is None:
            return False
        if kind == "lang":
            del x.attrib[LANG]
        else:
            x.tag = L + r.choice(["documentation", "note", "part"])
        return True
    if kind in ("used-on", "no-role-type"):
        x = pick([e for t in D.roots for e in t.iter(L + ("usedOn" if kind == "used-on" else "roleType"))])
        if x is None:
            return False
        x.getparent().remove(x)
        return True
    E = sp["elements"]
    byid = {e.get("id"): e for t in D.roots for e in t.iter("{*}element") if e.get("name")}
    if kind == "domain":
        o = [k for k in range(len(E)) if E[k]["kind"] == "typeddim"]
        x = pick([byid[E[k]["id"]] for k in o])
        if x is None:
            return False
        a = "{http://xbrl.org/2005/xbrldt}typedDomainRef"
        v = x.get(a) + "_nix"
        if id_of(v.split("#")[1]) in D.ids:
            return False
        x.set(a, v)
        D.untyped.add(next(k for k in o if E[k]["id"] == x.get("id")))
        D.note("REFERENCED_SCHEMA_ELEMENT_NOT_FOUND", x, id_of(v.split("#")[1]))
        return True
    o = [k for k in range(len(E)) if E[k]["kind"] == "concept"]
    x = pick([byid[E[k]["id"]] for k in o])
    if x is None:
        return False
    I = "{http://www.xbrl.org/2003/instance}"
    v = r.choice(["", "x", "Instant", "TRUE", "2", "credits", "instant "])
    if kind == "period":
        if r.random() < 0.3:
            del x.attrib[I + "periodType"]
        else:
            x.set(I + "periodType", v)
        D.note("INVALID_CONCEPT_PERIOD_TYPE", x, x.get("name"))
    elif kind == "balance":
        x.set(I + "balance", v)
        D.note("INVALID_CONCEPT_BALANCE_TYPE", x, x.get("name"))
    elif kind == "nillable":
        x.set("nillable", v)
        D.note("INVALID_CONCEPT_NILLABLE_VALUE", x, x.get("name"))
    else:
        del x.attrib["type"]
        D.note("MISSING_CONCEPT_DATA_TYPE", x, x.get("name"))
    D.lost.add(next(k for k in o if E[k]["id"] == x.get("id")))
    return True


class Damage:
    def __init__(self, sp, r, roots):
        self.sp, self.r, self.roots = sp, r, roots
        self.links = links_of(roots)
        self.touched, self.keep = set(), []
        self.must, self.may, self.culprit = set(), set(), {}
        self.lost, self.untyped = set(), set()      # elements that are not reported; dimensions whose domain is not known
        self.ids = {e["id"] for e in sp["elements"]} | {f["id"] for f in sp["facts"]}
        self.names = set()

    def note(self, name, e, culprit=None, must=True):
        k = (code_of(name), owner(e))
        self.may.add(k)
        if must:
            self.must.add(k)
        if culprit:
            self.culprit.setdefault(k, set()).add(culprit)


def evaluate(D):
    """what the damaged documents say: the arcs between things that exist"""
    sp = D.sp
    E = sp["elements"]
    idx = {e["id"]: k for k, e in enumerate(E) if k not in D.lost and e["kind"] != "typedomain"}
    nets, labels, refs, phys = {}, Counter(), Counter(), []
    for l in links_of(D.roots):
        role = l.get(X + "role")
        if role is None:
            D.note("MISSING_LINK_ROLE", l)
            continue
        kind = local(l)
        if kind not in ("presentationLink", "calculationLink", "definitionLink", "labelLink", "referenceLink", "footnoteLink"):
            D.note("UNSUPPORTED_LINK_TYPE", l, kind)
            continue
        kind = kind[:-4]
        at = {}
        for e in typed(l, "locator"):
            i = id_of(e.get(X + "href").strip().split("#")[-1])
            if i in idx:
                at.setdefault(e.get(X + "label"), []).append(idx[i])
            else:
                D.note("XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND", e, i)
        for e in typed(l, "resource"):
            t = local(e)
            if t not in ("label", "reference", "footnote"):
                D.note("XML_UNSUPPORTED_RESOURCE_TAG", e, t)
            elif t == "label" and lang_of(e) is None:
                D.note("MISSING_LABEL_LANGUAGE", e)
            else:
                body = "".join(e.itertext()) if t == "label" else tuple(sorted((local(c), c.text or "") for c in e if isinstance(c.tag, str)))
                at.setdefault(e.get(X + "label"), []).append((e.get(X + "role"), lang_of(e) if t == "label" else None, body))
        seen, arcs = set(), []
        for a in typed(l, "arc"):
            k = (a.get(X + "from"), a.get(X + "to"), a.get(X + "arcrole"))
            if k in seen:
                D.note("DUPLICATE_LINKBASE_ARC", a, k[1])
                continue
            seen.add(k)
            for p in at.get(k[0], []):
                for c in at.get(k[1], []):
                    arcs.append({"p": p, "c": c, "arcrole": k[2], "order": a.get("order"), "pref": a.get("preferredLabel"), "weight": a.get("weight")})
        if kind == "label":
            for a in arcs:
                labels[a["p"], a["c"]] += 1
        elif kind == "reference":
            for a in arcs:
                refs[a["p"], a["c"]] += 1
        else:
            nets.setdefault((role, kind), []).extend(arcs)
            by = {}
            for a in arcs:
                by.setdefault(a["arcrole"], []).append(a)
            if kind == "definition":
                phys += [[role, model.forest(sp, v, model.x_none, True)] for v in by.values()]
    comps = []
    for t in D.roots:
        for rt in t.iter(L + "roleType"):
            uri = rt.get("roleURI")
            d = rt.find(L + "definition")
            used = {"".join(u.itertext()).strip().split(":")[-1] for u in rt.iter(L + "usedOn")}
            c = {"uri": uri, "info": "" if d is None else "".join(d.itertext())}
            for k, n, ex in (("pres", "presentation", model.x_pres), ("cal", "calculation", model.x_calc), ("def", "definition", model.x_none)):
                arcs = nets.get((uri, n)) or []
                c[k] = model.forest(sp, arcs, ex, k == "def") or None
                if n + "Link" not in used and (uri, n) in nets:
                    D.note(n.upper() + "_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT", rt, uri, must=bool(arcs))
            comps.append(c)
    return sorted(comps, key=repr), labels, refs, sorted(phys, key=repr)


def prune(net):
    """a locator none of whose arcs are left may still stand for itself"""
    return [t for t in net if t[1]] or None if net else None


def g(r):
    p = case(r, {"p_noid": 0.0, "footnotes": 0.0, "p_sameid": 0.0, "facts": (1, 6), "dims": (1, 3), "members": (2, 5), "typed": (0, 2), "concepts": (3, 10), "roles": (1, 3), "tree": (3, 8), "labels": 0.8, "refs": 0.5})
    p["dseed"] = r.randrange(1 << 40)
    return p


def run(p, env):
    sp = spec_of(p)
    sp["footlinks"] = []
    d = env.dir()
    path = write_spec(sp, p["style"], d)
    files = [f for f in sorted(glob.glob(os.path.join(d, "**", "*"), recursive=True)) if f.endswith((".xml", ".xsd")) and f != path]
    trees = {f: etree.parse(f) for f in files}
    r = random.Random(p["dseed"])
    D = Damage(sp, r, [t.getroot() for t in trees.values()])
    kinds = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.choice(KINDS)
        if damage(D, k):
            kinds.append(k)
    comps, labels, refs, phys = evaluate(D)
    E = sp["elements"]
    inst = etree.parse(path).getroot()
    bye = {e.get("id"): e for e in inst.iter() if isinstance(e.tag, str) and e.get("id")}
    want = {}
    for f in sp["facts"]:
        if f["c"] in D.lost:
            D.note("XML_FACT_INVALID_CONCEPT", bye[f["id"]], E[f["c"]]["name"])
        else:
            want[f["id"]] = model.m_fact(sp, f)
    for f, t in trees.items():
        t.write(f, encoding="UTF-8", xml_declaration=True)
    fl = Filing.open(path)
    errs = check_lists(fl)
    judge(D, errs, owner)
    # facts
    got = {f.get_id(): observe.obs_fact(f) for f in fl.get_all_facts()}
    must_equal("linkbase-defects:facts", got, want, str(kinds))
    # elements and what is attached to them
    wl = {}
    for (e, res), n in labels.items():
        wl.setdefault(e, Counter())[res] += n
    m = model.m_elements(sp)
    for k, e in enumerate(E):
        c = model.clark(sp, k)
        if k in D.lost:
            del m[c]
        elif c in m:
            m[c]["labels"] = wl.get(k, Counter())
            if k in D.untyped:
                m[c]["typed"] = None
    must_equal("linkbase-defects:elements", observe.obs_elements(fl), m, str(kinds))
    po = observe.obs_physical(fl)
    must_equal("linkbase-defects:labels", po["labels"], Counter({(model.clark(sp, e), ("res",) + res): n for (e, res), n in labels.items()}), str(kinds))
    must_equal("linkbase-defects:references", po["refs"], Counter({(model.clark(sp, e), ("res",) + res): n for (e, res), n in refs.items()}), str(kinds))
    # networks
    oc = observe.obs_components(fl)
    for c in oc:
        for k in ("pres", "cal", "def"):
            c[k] = prune(c[k])
    must_equal("linkbase-defects:components", sorted(oc, key=repr), comps, str(kinds))
    od = [[a, prune(n)] for a, n in po["defs"]]
    must_equal("linkbase-defects:definitions", sorted(([a, n] for a, n in od if n), key=repr), phys, str(kinds))
    obs = Counter("damage_" + k for k in kinds)
    return Obs(key_of(p), bool(kinds), facts=len(want), errors=len(errs), nodes=sum(count_nodes(t) for c in comps for k in ("pres", "cal", "def") for t in c[k] or []), labels=sum(labels.values()), lost_concepts=len(D.lost), **obs)


SPEC = dict(
    rule="random filings in random styles with one to five defects in locators, arcs, links, labels, roles and declarations; a case is non-trivial when a defect was placed",
    assumptions=["an arc whose one end does not exist is left out, and nothing else is; a locator none of whose arcs are left may be reported as a root of its own or not at all",
                 "a concept with an invalid declaration is not reported, and what refers to it is defective in turn"],
    minimum={"errors": 2000, **{"damage_" + k: 20 for k in KINDS}},
    probes=[Probe("linkbase", 4000, 50000, g, run)])
