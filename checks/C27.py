"""Defects of XML instances are reported where they are and cost no more than what is damaged."""
import json
import random

from brel.errors.area import Area
from brel.errors.severity import Severity
from lxml import etree

from slices import *

# what an error is called by is part of the interface: it does not change from version to version
CODES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "codes.json")))
ANY = "any"
NAMES = ("id", "concept", "value", "entity", "period", "unit", "dims", "decimals", "precision")


def code_of(name):
    return CODES[name]


def local(e):
    return etree.QName(e).localname if isinstance(e.tag, str) else None


def sub(e, *path):
    for p in path:
        e = next((c for c in e if local(c) == p), None)
        if e is None:
            return None
    return e


def blank(e, text=None):
    for c in list(e):
        e.remove(c)
    e.text = text


FACT = ["concept", "namespace", "abstract", "context", "unit", "decimals", "precision", "empty"]
CTX = ["no-period", "no-entity", "date", "no-start", "no-end", "swapped", "no-identifier", "no-scheme", "no-name", "dim", "dim-kind", "member", "member-kind", "no-member", "tdim", "tnone", "ttwo", "tempty", "foreign", "gone", "no-dim", "t-no-dim"]
UNIT = ["u-empty", "u-measure", "u-foreign", "u-two", "d-one", "d-same", "d-foreign", "d-measure", "u-gone"]


class Damage:
    def __init__(self, sp, root, r):
        self.sp, self.root, self.r = sp, root, r
        self.must, self.may = set(), set()      # (code, id of the fact, context or unit)
        self.culprit = {}
        self.facts = {e.get("id"): e for e in root.iter() if isinstance(e.tag, str) and e.get("contextRef") is not None}
        self.ctx = {e.get("id"): e for e in root if local(e) == "context"}
        self.unit = {e.get("id"): e for e in root if local(e) == "unit"}
        self.want = {f["id"]: dict(model.m_fact(sp, f)) for f in sp["facts"]}
        self.stage = []         # (id of a fact, where its reading ends): concept, unit, context
        self.kinds = []

    def err(self, name, owner, culprit=None):
        self.pending.append((name, owner, culprit))

    def users(self, k, i):
        return [f["id"] for f in self.sp["facts"] if f[k] == i]


def damage_fact(D, f, kind):
    e, i, r, w = D.facts[f["id"]], f["id"], D.r, D.want[f["id"]]
    if kind in ("concept", "namespace", "abstract"):
        if kind == "abstract":
            o = [k for k in range(len(D.sp["elements"])) if D.sp["elements"][k]["kind"] in ("abstract", "member", "hypercube", "dimension", "lineitems")]
            if not o:
                return False
            e.tag = model.clark(D.sp, r.choice(o))
        elif kind == "concept":
            t = e.tag + r.choice(["X", "_", "nix"])
            if t in {model.clark(D.sp, k) for k in range(len(D.sp["elements"]))}:
                return False
            e.tag = t
        else:
            e.tag = "{http://nix}" + etree.QName(e).localname
        D.stage.append((i, "concept"))
        D.fact_errors.append(("XML_FACT_INVALID_CONCEPT", i, e.tag.split("}")[1], "concept"))
    elif kind == "context":
        v = r.choice(["nix", "", "c 1", "ctx'", '"', f["id"], D.sp["units"][0]["id"] if D.sp["units"] else "u", "]", "C-0" if "C-0" not in D.ctx else "nix"])
        if v in D.ctx:
            return False
        e.set("contextRef", v)
        D.stage.append((i, "context"))
        D.fact_errors.append(("XML_INVALID_FACT_CONTEXT_ID", i, v, "context"))
    elif kind == "unit":
        if f["unit"] is None:
            return False
        v = r.choice(["nix", "u 1", "u'", '"', f["id"], D.sp["contexts"][0]["id"], "iso4217:USD"])
        if v in D.unit:
            return False
        e.set("unitRef", v)
        D.stage.append((i, "unit"))
        D.fact_errors.append(("XML_INVALID_FACT_UNIT_ID", i, v, "unit"))
    elif kind in ("decimals", "precision"):
        v = r.choice(["2.0", "two", "", "inf", "1e3", "-", "--2", "INFINITY", "2 3", "0x1"])
        e.set(kind, v)
        w[kind] = None
        D.fact_errors.append((f"INVALID_{kind.upper()}_ATTRIBUTE_VALUE", i, v, None))
    else:
        if f["nil"] or not f["value"]:
            return False
        blank(e)
        w["value"] = ""
        if D.sp["elements"][f["c"]]["nillable"] not in ("true", "1"):
            D.fact_errors.append(("MISSING_FACT_VALUE", i, etree.QName(e).localname, None))
    return True


def damage_context(D, ci, kind):
    c, r, E = D.sp["contexts"][ci], D.r, D.sp["elements"]
    e, i = D.ctx[c["id"]], c["id"]
    us = D.users("ctx", ci)
    ent, per = sub(e, "entity"), sub(e, "period")

    def every(key, v):
        for u in us:
            D.want[u][key] = v

    if kind == "gone":
        e.getparent().remove(e)
        for u in us:
            D.stage.append((u, "context"))
            D.fact_errors.append(("XML_INVALID_FACT_CONTEXT_ID", u, i, "context"))
        return True
    if kind in ("no-period", "no-entity"):
        x = per if kind == "no-period" else ent
        if x is None:
            return False
        e.remove(x)
        D.ctx_errors.append(("MISSING_CONTEXT_PERIOD" if kind == "no-period" else "MISSING_CONTEXT_ENTITY", i, None))
        for u in us:
            D.stage.append((u, "lost"))
        return True
    if kind == "date":
        x = r.choice([k for k in per if isinstance(k.tag, str)])
        v = r.choice(["2020-13-01", "2021-02-29", "today", "2020", "", "31.12.2020", "2020-1-1", "20200101x", "2020-12-31x", "2020-12-311", "2020-06-31", "2020-12-31T25:00:00", "x2020-12-31", "2020/12/31", "0000-00-00"])
        blank(x, v)
        every("period", None)
        D.ctx_errors.append(("INVALID_CONTEXT_PERIOD_DATE", i, v))
        return True
    if kind in ("no-start", "no-end", "swapped"):
        if len(c["period"]) != 2:
            return False
        s, t = sub(per, "startDate"), sub(per, "endDate")
        if kind == "swapped":
            if c["period"][0] >= c["period"][1]:
                return False
            blank(s, c["period"][1])
            blank(t, c["period"][0])
            D.ctx_errors.append(("DURATION_PERIOD_START_AFTER_END", i, c["period"][1]))
        else:
            per.remove(s if kind == "no-start" else t)
            D.ctx_errors.append(("DURATION_PERIOD_MISSING_START_DATE" if kind == "no-start" else "DURATION_PERIOD_MISSING_END_DATE", i, None))
        every("period", None)
        return True
    if kind in ("no-identifier", "no-scheme", "no-name"):
        x = sub(ent, "identifier")
        if kind == "no-identifier":
            ent.remove(x)
            D.ctx_errors.append(("ENTITY_MISSING_IDENTIFIER_ELEMENT", i, None))
        elif kind == "no-scheme":
            del x.attrib["scheme"]
            D.ctx_errors.append(("ENTITY_IDENTIFIER_MISSING_SCHEME", i, None))
        else:
            blank(x, r.choice([None, " ", "\n\t"]))
            D.ctx_errors.append(("ENTITY_IDENTIFIER_MISSING_VALUE", i, None))
        every("entity", None)
        return True
    seg = sub(ent, "segment")
    boxes = [b for b in (seg, sub(e, "scenario")) if b is not None]
    if kind == "foreign":
        if not boxes:
            return False
        box = r.choice(boxes)
        tag = r.choice(["{http://nix}note", "{http://www.xbrl.org/2003/instance}measure"])
        x = etree.Element(tag)
        x.text = "text"
        box.insert(r.randint(0, len(box)), x)
        D.ctx_errors.append(("INVALID_DIMENSION_TYPE", i, tag.split("}")[1]))
        return True
    dims = [x for b in boxes for x in b if local(x) in ("explicitMember", "typedMember")]
    typed = kind.startswith("t")
    dims = [x for x in dims if (local(x) == "typedMember") == typed]
    if not dims:
        return False
    x = r.choice(dims)
    dq = x.get("dimension").strip()
    pre, nm = dq.split(":")
    clark = "{%s}%s" % (x.nsmap[pre], nm)
    if kind in ("dim", "tdim", "dim-kind"):
        if kind == "dim-kind":
            o = [k for k in range(len(E)) if E[k]["kind"] in ("member", "concept", "abstract") and E[k]["s"] == next(k2["s"] for k2 in E if model.clark(D.sp, E.index(k2)) == clark)]
            if not o:
                return False
            v = pre + ":" + E[r.choice(o)]["name"]
        else:
            v = r.choice([pre + ":" + nm + "Nix", "nix:" + nm])
            if "{%s}%s" % (x.nsmap[pre], v.split(":")[1]) in {model.clark(D.sp, k) for k in range(len(E))} and v.startswith(pre + ":"):
                return False
        x.set("dimension", v)
        D.ctx_errors.append(("INVALID_TYPED_DIMENSION_VALUE" if typed else "INVALID_EXPLICIT_DIMENSION_VALUE", i, v.split(":")[1]))
    elif kind.endswith("no-dim"):
        del x.attrib["dimension"]
        D.ctx_errors.append(("INVALID_TYPED_DIMENSION_VALUE" if typed else "INVALID_EXPLICIT_DIMENSION_VALUE", i, None))
    elif kind in ("member", "member-kind"):
        q = "".join(x.itertext()).strip()
        mp, mn = q.split(":")
        if kind == "member":
            v = r.choice([q + "Nix", "nix:" + mn])
            if v.startswith(mp + ":") and "{%s}%s" % (x.nsmap[mp], v.split(":")[1]) in {model.clark(D.sp, k) for k in range(len(E))}:
                return False
        else:
            v = dq
        blank(x, v)
        D.ctx_errors.append(("INVALID_EXPLICIT_DIMENSION_MEMBER", i, v.split(":")[1]))
    elif kind == "no-member":
        blank(x, r.choice([None, "  "]))
        D.ctx_errors.append(("MISSING_EXPLICIT_DIMENSION_MEMBER", i, nm))
    else:
        kid = next(k for k in x if isinstance(k.tag, str))
        if kind == "tnone":
            x.remove(kid)
            D.ctx_errors.append(("NO_TYPED_DIMENSION_ELEMENT_CHILDREN", i, nm))
        elif kind == "tempty":
            blank(kid)
            D.ctx_errors.append(("MISSING_TYPED_DIMENSION_VALUE", i, nm))
        else:
            k2 = etree.SubElement(x, kid.tag)
            k2.text = "second"
            D.ctx_errors.append(("MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN", i, nm))
            return True         # the first one counts
    for u in us:
        D.want[u]["dims"] = {k: v for k, v in D.want[u]["dims"].items() if k != clark}
    return True


def damage_unit(D, ui, kind):
    u = D.sp["units"][ui]
    e, i, r = D.unit[u["id"]], u["id"], D.r
    us = D.users("unit", ui)
    X = "{http://www.xbrl.org/2003/instance}"
    div = sub(e, "divide")

    def foreign():
        x = etree.Element(r.choice(["{http://nix}rate", X + "value"]))
        x.text = "iso4217:USD"
        return x
    lost = False
    if kind == "u-gone":
        e.getparent().remove(e)
        for f in us:
            D.stage.append((f, "unit"))
            D.fact_errors.append(("XML_INVALID_FACT_UNIT_ID", f, i, "unit"))
        return True
    if kind == "u-empty":
        blank(e)
        D.unit_errors.append(("XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD", i, i))
    elif kind in ("u-measure", "d-measure"):
        if (kind == "d-measure") != (div is not None):
            return False
        x = r.choice([m for m in e.iter() if local(m) == "measure"])
        blank(x, r.choice([None, " \n"]))
        D.unit_errors.append(("XML_MISSING_UNIT_MEASURE", i, None))
        lost = True
    elif kind == "u-foreign":
        blank(e)
        x = foreign()
        e.append(x)
        D.unit_errors.append(("XML_INVALID_UNIT_ELEMENT_CHILDREN", i, local(x)))
    elif kind == "u-two":
        e.append(foreign())
        D.unit_errors.append(("XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD", i, i))
    else:
        if div is None:
            return False
        x = sub(div, r.choice(["unitNumerator", "unitDenominator"]))
        if kind == "d-one":
            div.remove(x)
            D.unit_errors.append(("XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN", i, i))
        elif kind == "d-same":
            x.tag = X + ("unitDenominator" if local(x) == "unitNumerator" else "unitNumerator")
            D.unit_errors.append(("XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN", i, i))
        else:
            y = foreign()
            y.text = None
            div.replace(x, y)
            D.unit_errors.append(("XML_INVALID_DIVIDE_ELEMENT_CHILDREN", i, local(y)))
    for f in us:
        if lost:
            D.stage.append((f, "unit"))
        else:
            D.want[f]["unit"] = ANY
    return True


def check_lists(fl):
    errs = fl.get_all_errors()
    by = [x for a in Area for x in fl.get_errors_by_area(a)]
    ids = lambda xs: sorted(map(id, xs))
    for a in Area:
        if any(x.get_area() is not a for x in fl.get_errors_by_area(a)):
            raise Violation("errors:area", a)
    if ids(by) != ids(errs):
        raise Violation("errors:areas-do-not-add-up", (len(by), len(errs)))
    for s, got in ((Severity.ERROR, fl.get_errors()), (Severity.WARNING, fl.get_warnings()), (Severity.INFO, fl.get_infos())):
        if ids(got) != ids(x for x in errs if x.get_severity() is s) or ids(fl.get_errors_by_severity(s)) != ids(got):
            raise Violation("errors:severity", (s, len(got)))
    if fl.has_any_errors() != bool(errs):
        raise Violation("errors:has-any-errors", fl.has_any_errors())
    return errs


def owner(e):
    while e is not None:
        if isinstance(e.tag, str) and e.get("id") and (e.get("contextRef") is not None or local(e) in ("context", "unit")):
            return e.get("id")
        e = e.getparent()
    return None


def judge(D, errs, owner=owner):
    """D.must/D.may against the errors that are reported"""
    got = {}
    for x in errs:
        c = x.get_context()
        k = (x.get_full_error_code(), None if c is None else owner(c))
        got.setdefault(k, []).append(x)
        if str(x) != x.get_full_error_code() + ": " + x.get_message():
            raise Violation("errors:printed", str(x))
    for k in D.must:
        if k not in got:
            raise Violation("errors:not-reported", f"{k} is not among {sorted(map(str, got))}")
    for k in got:
        if k not in D.may:
            raise Violation("errors:unexpected", f"{k}: {got[k][0]}; expected {sorted(map(str, D.may))}")
    for k, xs in got.items():
        c = D.culprit.get(k)
        if c and not any(v in x.get_message() for x in xs for v in c):
            raise Violation("errors:message", f"{c} is not named in {xs[0].get_message()!r}")


def g(r):
    p = case(r, {"p_noid": 0.0, "footnotes": 0.0, "facts": (2, 10), "units": (1, 4), "p_dims": 0.7, "dims": (1, 3), "members": (2, 5), "typed": (0, 2), "contexts": (1, 4)})
    p["dseed"] = r.randrange(1 << 40)
    p["style"].pop("dflt", None)            # the damage below is written with prefixes
    return p


def run(p, env):
    sp = spec_of(p)
    sp["footlinks"] = []
    path = write_spec(sp, p["style"], env.dir())
    tree = etree.parse(path)
    r = random.Random(p["dseed"])
    D = Damage(sp, tree.getroot(), r)
    ids = [f["id"] for f in sp["facts"]]
    if not ids or None in ids or len(set(ids)) != len(ids):
        return Obs(key_of(p), False)
    D.fact_errors, D.ctx_errors, D.unit_errors = [], [], []
    targets = set()
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        if k < 0.35:
            n = r.randrange(len(sp["facts"]))
            t, fn, a, kinds = ("f", n), damage_fact, sp["facts"][n], FACT
        elif k < 0.75:
            n = r.choice(sorted({f["ctx"] for f in sp["facts"]}))
            t, fn, a, kinds = ("c", n), damage_context, n, CTX
        else:
            us = sorted({f["unit"] for f in sp["facts"] if f["unit"] is not None})
            if not us:
                continue
            n = r.choice(us)
            t, fn, a, kinds = ("u", n), damage_unit, n, UNIT
        if t in targets:
            continue
        kind = r.choice(kinds)
        if fn(D, a, kind):
            targets.add(t)
            D.kinds.append(kind)
    # which errors can be seen: a fact is read as concept, unit, context, value, and not further once it is lost
    rank = {"concept": 0, "unit": 1, "context": 2, "lost": 3, None: 9}
    why = {}            # earliest end of every fact
    for name, i, c, st in D.fact_errors:
        if st:
            why[i] = min(why.get(i, 9), rank[st])
    for i, st in D.stage:
        why[i] = min(why.get(i, 9), rank[st])

    def note(name, o, culprit, must):
        k = (code_of(name), o)
        D.may.add(k)
        if must:
            D.must.add(k)
        if culprit:
            D.culprit.setdefault(k, set()).add(culprit)
    for name, i, c, st in D.fact_errors:
        reach = why.get(i, 9)
        if name.startswith("XML_INVALID_FACT_"):        # its reference and what it referred to may both be damaged
            c = D.facts[i].get("contextRef" if "CONTEXT" in name else "unitRef")
        note(name, i, c, reach >= (rank[st] if st else 9))
    cu = {c["id"]: [f["id"] for f in sp["facts"] if f["ctx"] == n and D.facts[f["id"]].get("contextRef") == c["id"]] for n, c in enumerate(sp["contexts"])}
    uu = {u["id"]: [f["id"] for f in sp["facts"] if f["unit"] == n and D.facts[f["id"]].get("unitRef") == u["id"]] for n, u in enumerate(sp["units"])}
    for name, i, c in D.ctx_errors:
        note(name, i, c, any(why.get(f, 9) >= 3 for f in cu[i]))
    for name, i, c in D.unit_errors:
        note(name, i, c, any(why.get(f, 9) >= 1 for f in uu[i]))
    tree.write(path, encoding="UTF-8", xml_declaration=True)
    fl = Filing.open(path)
    errs = check_lists(fl)
    judge(D, errs)
    want = {i: w for i, w in D.want.items() if i not in why}
    got = {}
    for f in fl.get_all_facts():
        o = observe.obs_fact(f)
        if o["id"] in got:
            raise Violation("defects:fact-twice", o["id"])
        got[o["id"]] = o
    if set(got) != set(want):
        raise Violation("defects:facts", f"lost {sorted(set(want) - set(got))}, not expected {sorted(set(got) - set(want))}; {D.kinds}")
    for i, w in want.items():
        for n in NAMES:
            if w[n] != ANY and got[i][n] != w[n]:
                raise Violation("defects:" + n, f"fact {i}: observed {got[i][n]!r}, expected {w[n]!r}; {D.kinds}")
    obs = Counter("damage_" + k for k in D.kinds)
    return Obs(key_of(p), bool(D.kinds), facts=len(want), lost=len(D.want) - len(want), errors=len(errs), **obs)


SPEC = dict(
    rule="random instances in random styles with one to five defects in facts, contexts and units; a case is non-trivial when a defect was placed",
    assumptions=["what is expected of damaged parts: a fact whose concept, unit or context does not exist, whose context has no period or no entity, or whose unit has an empty measure is not reported; "
                 "any other defect only takes away the damaged aspect or accuracy", "a defect of a context or unit is only claimed to be reported when a fact refers to it"],
    minimum={"facts": 3000, "errors": 2000, **{"damage_" + k: 5 for k in FACT + CTX + UNIT}},
    probes=[Probe("instance", 5000, 60000, g, run)])
