"""What a filing rendered from a spec must look like; computed from the spec alone."""
import json
from collections import Counter

STD_LABEL = "http://www.xbrl.org/2003/role/label"
XBRLI = "http://www.xbrl.org/2003/instance"
ISO = "http://www.xbrl.org/2003/iso4217"


MAX_DEPTH = 60      # deeper than anything that is generated


def clark(sp, i):
    e = sp["elements"][i]
    return "{%s}%s" % (sp["schemas"][e["s"]]["ns"], e["name"])


def m_unit(sp, ui):
    if ui is None:
        return None
    u = sp["units"][ui]

    def q(t):
        p, n = t
        ns = {"xbrli": XBRLI, "iso4217": ISO}.get(p) if isinstance(p, str) else sp["schemas"][p]["ns"]
        return "{%s}%s" % (ns, n)
    return {"num": sorted(map(q, u["num"])), "den": sorted(map(q, u["den"])), "name": u["id"]}


def m_dims(sp, c):
    return {clark(sp, d["dim"]): (["E", clark(sp, d["mem"])] if "mem" in d else ["T", d["val"]]) for d in c["dims"]}


def dec(v):
    return None if v is None else float(v)


def m_fact(sp, f):
    c = sp["contexts"][f["ctx"]]
    return {"id": f["id"], "value": f["value"], "concept": clark(sp, f["c"]), "period": list(c["period"]), "entity": [c["scheme"], c["entity"]],
            "unit": m_unit(sp, f["unit"]), "dims": m_dims(sp, c), "core": ["concept", "entity", "period"] + (["unit"] if f["unit"] is not None else []), "is_core": not c["dims"], "decimals": dec(f["decimals"]), "precision": dec(f["precision"])}


def m_facts(sp):
    return [m_fact(sp, f) for f in sp["facts"]]


KIND = {"typeddim": "dimension"}


def m_elements(sp, labels=True):
    out = {}
    labs = {}
    for l in sp["links"]:
        for x in l.get("labels", []):
            labs.setdefault(x["el"], Counter())[(x["role"], x["lang"], x["text"])] += 1
    for i, e in enumerate(sp["elements"]):
        if e["kind"] == "typedomain":
            continue
        d = {"kind": KIND.get(e["kind"], e["kind"]), "id": e["id"], "labels": labs.get(i, Counter())}
        if e["kind"] == "concept":
            d["attrs"] = [e["period"], e["balance"], e["nillable"] in ("true", "1"), "xbrli:" + e["type"]]
        if d["kind"] == "dimension":
            dom = sp["elements"][e["domain"]] if e["kind"] == "typeddim" else None
            d["typed"] = "{http://www.w3.org/2001/XMLSchema}" + ("anyType" if dom.get("inline") else dom["domtype"]) if dom else None
        out[clark(sp, i)] = d
    return out


def forest(sp, arcs, extra, arcrole=False):
    kids = {}
    children = set()
    for a in arcs:
        kids.setdefault(a["p"], []).append(a)
        children.add(a["c"])

    def tree(i, depth=0):
        assert depth < MAX_DEPTH
        out = [[1.0 if a["order"] is None else float(a["order"]), extra(a), a["arcrole"] if arcrole else None, tree(a["c"], depth + 1)] for a in kids.get(i, [])]
        out.sort(key=repr)
        return [clark(sp, i), out]
    return sorted((tree(p) for p in kids if p not in children), key=repr)


def x_pres(a):
    return a.get("pref") or STD_LABEL


def x_calc(a):
    return float(a["weight"])


def x_none(a):
    return None


def role_arcs(sp, ri, kind):
    return [a for l in sp["links"] if l["kind"] == kind and l["role"] == ri for a in l["arcs"]]


def m_components(sp):
    out = []
    for ri, ro in enumerate(sp["roles"]):
        f = lambda kind, ex, ar=False: (lambda arcs: forest(sp, arcs, ex, ar) if arcs else None)(role_arcs(sp, ri, kind))
        out.append({"uri": ro["uri"], "info": ro["def"] or "", "pres": f("presentation", x_pres), "cal": f("calculation", x_calc), "def": f("definition", x_none, True)})
    return sorted(out, key=repr)


def m_physical(sp):
    labels, refs, foots, defs = Counter(), Counter(), Counter(), []
    for l in sp["links"]:
        for x in l.get("labels", []):
            labels[(clark(sp, x["el"]), ("res", x["role"], x["lang"], x["text"]))] += 1
        for x in l.get("refs", []):
            refs[(clark(sp, x["el"]), ("res", x["role"], None, tuple(sorted((k, v) for k, v in x["parts"]))))] += 1
        if l["kind"] == "definition":
            by = {}
            for a in l["arcs"]:
                by.setdefault(a["arcrole"], []).append(a)
            for arcs in by.values():
                defs.append([sp["roles"][l["role"]]["uri"], forest(sp, arcs, x_none, True)])
    for fl in sp["footlinks"]:
        for nt in fl["notes"]:
            for fi in nt["facts"]:
                foots[(fl["role"], "fact:" + json.dumps(m_fact(sp, sp["facts"][fi]), sort_keys=True, default=repr), ("res", "http://www.xbrl.org/2003/role/footnote", nt["lang"], nt["text"]))] += 1
    return {"labels": labels, "refs": refs, "foots": foots, "defs": sorted(defs, key=repr)}


def model(sp):
    return {"facts": m_facts(sp), "elements": m_elements(sp), "components": m_components(sp), "physical": m_physical(sp), "errors": []}
