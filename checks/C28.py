"""Defects of inline reports are reported where they are and cost no more than what is damaged."""
import copy
import random
from decimal import Decimal

import C27
import gen
import ix
from C27 import ANY, CTX, NAMES, UNIT, blank, check_lists, code_of, damage_context, damage_unit, judge, local, sub
from lxml import etree
from slices import *

NIL = "{http://www.w3.org/2001/XMLSchema-instance}nil"
IX = "{http://www.xbrl.org/2013/inlineXBRL}"
FACTS = ("nonFraction", "nonNumeric")
FACT = ["no-name", "concept", "namespace", "abstract", "no-context", "context", "unit", "no-unit", "decimals", "precision", "both", "sign", "scale", "format", "escape", "same-id", "empty", "nil-text", "nil-false",
        "negative", "words", "child", "wrap"]
XC = ["c-no-id", "c-twice"]
XU = ["u-no-id", "u-twice"]
HEAD = ["header", "hidden", "resources", "references", "tuple", "two-hidden", "two-resources", "no-header", "no-resources", "in-head"]


class Damage(C27.Damage):
    def __init__(self, sp, root, r):
        super().__init__(sp, root, r)
        self.facts = {e.get("id"): e for e in root.iter(IX + "nonFraction", IX + "nonNumeric")}
        self.ctx = {e.get("id"): e for e in root.iter("{http://www.xbrl.org/2003/instance}context")}
        self.unit = {e.get("id"): e for e in root.iter("{http://www.xbrl.org/2003/instance}unit")}
        self.may_any = set()        # error codes allowed anywhere
        self.extra = {}


def owner(e):
    while e is not None:
        if isinstance(e.tag, str) and local(e) in FACTS + ("context", "unit"):
            return e.get("id")
        e = e.getparent()
    return None


def insert_any(r, box, x):
    k = r.randint(0, len(box))
    box.insert(k, x)


def damage_fact(D, f, kind):
    i, r, E = f["id"], D.r, D.sp["elements"]
    e, w = D.facts[i], D.want[i]
    number = local(e) == "nonFraction"
    alone = number and not any(local(k) == "nonFraction" for k in e) and not local(e.getparent()) == "nonFraction" and not f["nil"]
    names = {model.clark(D.sp, k) for k in range(len(E))}
    q = e.get("name")
    pre, nm = q.split(":")
    if kind == "no-name":
        del e.attrib["name"]
        D.fact_errors.append(("IXBRL_FACT_WITHOUT_CONCEPT_NAME", i, i, "concept"))
    elif kind in ("concept", "namespace", "abstract"):
        if kind == "concept":
            v = q + r.choice(["X", "_", "nix"])
            if "{%s}%s" % (e.nsmap[pre], v.split(":")[1]) in names:
                return False
        elif kind == "namespace":
            v = r.choice(["nix:" + nm, nm, "xbrli:" + nm])
        else:
            o = [k for k in range(len(E)) if E[k]["kind"] in ("abstract", "member", "hypercube", "dimension", "lineitems") and D.sp["schemas"][E[k]["s"]]["ns"] == e.nsmap[pre]]
            if not o:
                return False
            v = pre + ":" + E[r.choice(o)]["name"]
        e.set("name", v)
        D.fact_errors.append(("IXBRL_FACT_INVALID_CONCEPT", i, v, "concept"))
    elif kind == "no-context":
        del e.attrib["contextRef"]
        D.fact_errors.append(("IXBRL_FACT_WITHOUT_CONTEXT", i, i, "context"))
    elif kind == "context":
        v = r.choice(["nix", "c 1", "ctx'", '"', i, "]", ""])
        if v in D.ctx:
            return False
        e.set("contextRef", v)
        D.fact_errors.append(("IXBRL_INVALID_FACT_CONTEXT_ID", i, v, "context"))
    elif kind == "unit":
        v = r.choice(["nix", "u 1", "u'", '"', i])
        if v in D.unit or not number:
            return False
        e.set("unitRef", v)
        w["unit"] = None
        D.fact_errors.append(("IXBRL_INVALID_FACT_UNIT_ID", i, v, None))
        D.may_any.add("IXBRL_DIFFERING_FORMAT_SCALE_OR_UNIT_FOR_NON_FRACTION_CHILD")
    elif kind == "no-unit":
        if not number:
            return False
        del e.attrib["unitRef"]
        w["unit"] = None
        D.fact_errors.append(("IXBRL_NON_FRACTION_WITHOUT_UNIT", i, i, None))
        D.may_any.add("IXBRL_DIFFERING_FORMAT_SCALE_OR_UNIT_FOR_NON_FRACTION_CHILD")
    elif kind in ("decimals", "precision"):
        if not number or f["nil"]:
            return False
        v = r.choice(["2.0", "two", "", "inf", "1e3", "-", "--2", "INFINITY", "2 3", "0x1"])
        e.set(kind, v)
        w[kind] = None
        D.fact_errors.append((f"INVALID_{kind.upper()}_ATTRIBUTE_VALUE", i, v, None))
    elif kind == "both":
        if not number or f["nil"]:
            return False
        e.set("decimals", "2")
        e.set("precision", "5")
        w["decimals"], w["precision"] = 2.0, 5.0
        D.fact_errors.append(("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION", i, None, None))
    elif kind == "sign":
        if not alone:
            return False
        v = r.choice(["+", "minus", "--", "1", "−"])
        e.set("sign", v)
        w["value"] = w["value"].lstrip("-")
        D.fact_errors.append(("IXBRL_INVALID_SIGN_ATTRIBUTE_VALUE", i, v, None))
    elif kind == "scale":
        if not alone or e.get("scale") not in (None, "0") or (e.get("format") or "").split(":")[-1] in ("numdash", "zerodash", "fixed-zero"):
            return False            # (these need no scale)
        v = r.choice(["k", "1.5", "e3", "thousand", "--1"])
        e.set("scale", v)
        D.fact_errors.append(("INVALID_SCALE_ATTRIBUTE_VALUE", i, v, None))
    elif kind == "format":
        if f["nil"] or (number and not alone):
            return False
        p = next(k for k, v in e.nsmap.items() if v == ix.IXT)
        e.set("format", p + ":" + r.choice(["nix", "num-dot", "datenix"]))
        w["value"] = ANY
        v = e.get("format").split(":")[1]
        D.fact_errors.append(("UNSUPPORTED_NON_FRACTION_FACT_FORMAT" if number else {"n": "UNSUPPORTED_LITERAL_FACT_FORMAT" if v == "nix" else "UNSUPPORTED_NON_NUMERIC_FACT_FORMAT", "d": "UNSUPPORTED_DATE_FORMAT"}[v[0]], i, v, None))
    elif kind == "escape":
        if number:
            return False
        v = r.choice(["yes", "TRUE", "on", "2"])
        e.set("escape", v)
        w["value"] = ANY
        D.may_any.update(("UNSUPPORTED_NON_NUMERIC_FACT_FORMAT", "DATE_DOES_NOT_MATCH_EXPECTED_FORMAT"))
        D.fact_errors.append(("IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE", i, v, None))
    elif kind == "same-id":
        o = r.choice(list(D.ctx) + list(D.unit))
        if o in D.renamed.values():
            return False
        e.set("id", o)
        D.renamed[i] = o
        w["id"] = o
        D.fact_errors.append(("IXBRL_DUPLICATE_ELEMENT_ID", i, o, None))
    elif kind == "empty":
        if not alone:
            return False
        blank(e)
        w["value"] = ""
        v = r.choice([None, None, "false", "0"])
        if v:
            e.set(NIL, v)
            D.may_any.add("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION")
        D.fact_errors.append(("IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE", i, None, None))
    elif kind == "nil-text":
        if not alone or not "".join(e.itertext()):
            return False
        e.set(NIL, r.choice(["true", "1"]))
        w["value"] = ""
        D.fact_errors.append(("IXBRL_TEXT_OR_CHILDREN_WITH_NIL", i, None, None))
        D.may_any.add("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION")
    elif kind == "nil-false":
        if not number or f["nil"] or not "".join(e.itertext()):
            return False
        e.set(NIL, r.choice(["false", "0"]))
        D.may_any.add("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION")
    elif kind in ("negative", "words"):
        if not alone:
            return False
        for a in ("format", "scale", "sign"):
            e.attrib.pop(a, None)
        v = r.choice(["-5", "-0.1", "-12"]) if kind == "negative" else r.choice(["abc", "1,5", "12 000", "–", "(5)"])
        if r.random() < 0.5:
            e.set("sign", "-")
        blank(e, v)
        w["value"] = ""
        D.fact_errors.append(("IXBRL_NEGATIVE_NON_FRACTION_FACT_VALUE" if kind == "negative" else "IXBRL_NON_NUMERICAL_NON_FRACTION_FACT_VALUE", i, v, None))
    elif kind == "child":
        if not alone:
            return False
        blank(e)
        k = etree.SubElement(e, r.choice(["{http://www.w3.org/1999/xhtml}b", "{http://nix}b"]))
        k.text = "12"
        w["value"] = ANY
        D.fact_errors.append(("IXBRL_INVALID_NON_FRACTION_CHILD", i, "b", None))
    elif kind == "wrap":
        if not alone or local(e.getparent()) == "hidden":
            return False
        W = etree.Element(e.tag, {k: v for k, v in e.attrib.items() if k not in ("id", "decimals", "precision")})
        W.set("id", "wrapper")
        if "wrapper" in D.facts:
            return False
        W.tail, e.tail = e.tail, None
        e.getparent().replace(e, W)
        W.append(e)
        mode = r.choice(["text", "scale", "format", "unit", "nil", "two", "prefix"])
        if mode == "text":
            e.tail = " and more"
            D.fact_errors.append(("IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION", "wrapper", None, None))
        elif mode == "nil":
            e.set(NIL, r.choice(["true", "1", " 1 "]))
            D.fact_errors.append(("IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD", i, None, None))
            if "".join(e.itertext()):
                w["value"] = ""
                D.fact_errors.append(("IXBRL_TEXT_OR_CHILDREN_WITH_NIL", i, None, None))
            D.may_any.add("IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION")
        elif mode == "two":
            k = copy.deepcopy(e)
            k.set("id", "wrapper2")
            W.append(k)
            D.facts["wrapper2"] = k
            D.extra["wrapper2"] = f
            D.fact_errors.append(("IXBRL_MULTIPLE_NON_FRACTION_CHILDREN", "wrapper", None, None))
        elif mode == "prefix":      # the same format under another prefix
            if W.get("format"):
                a, _, b = W.get("format").strip().partition(":")
                if a in W.nsmap:
                    D.zz = W.nsmap[a]       # declared when the document is written
                    W.set("format", "zz:" + b)
        else:
            if mode == "unit":
                u = [x for x in D.unit if x != e.get("unitRef")]
                if not u:
                    mode = "scale"
                else:
                    W.set("unitRef", r.choice(u))
            if mode == "format":
                a, _, b = (e.get("format") or "").strip().partition(":")
                if b:
                    W.set("format", a + ":fixed-zero")
                else:
                    mode = "scale"
            if mode == "scale":
                W.set("scale", "7")
            D.fact_errors.append(("IXBRL_DIFFERING_FORMAT_SCALE_OR_UNIT_FOR_NON_FRACTION_CHILD", "wrapper", None, None))
        D.stats_wrap = mode
        D.facts["wrapper"] = W
        D.extra["wrapper"] = f
    else:
        raise AssertionError(kind)
    return True


def damage_head(D, kind):
    r, root = D.r, D.root
    box = next(root.iter(IX + "header"))
    foreign = etree.Element(r.choice(["{http://nix}b", IX + "nix", "{http://www.xbrl.org/2003/instance}period"]))
    hidden = box.find(IX + "hidden")
    res = box.find(IX + "resources")
    refs = box.find(IX + "references")

    def err(name, culprit=None):
        D.head_errors.append((name, culprit))
    if kind == "header":
        insert_any(r, box, foreign)
        err("IXBRL_INVALID_HEADER_CHILD", local(foreign))
    elif kind == "hidden":
        if hidden is None:
            return False
        insert_any(r, hidden, foreign)
        err("IXBRL_INVALID_HIDDEN_ELEMENT", local(foreign))
    elif kind == "tuple":
        if hidden is None:
            return False
        insert_any(r, hidden, etree.Element(IX + r.choice(["tuple", "fraction"])))
        err("IXBRL_ELEMENT_NOT_SUPPORTED", None)
    elif kind == "resources":
        insert_any(r, res, foreign)
        err("IXBRL_INVALID_RESOURCES_CHILD", local(foreign))
    elif kind == "references":
        insert_any(r, refs, foreign)
        err("IXBRL_INVALID_REFERENCES_CHILD", local(foreign))
    elif kind == "two-hidden":
        for _ in range(2 if hidden is None else 1):
            box.append(etree.Element(IX + "hidden"))
        err("IXBRL_MORE_THAN_ONE_HIDDEN_HEADER_CHILD", "2")
    elif kind == "two-resources":
        box.append(etree.Element(IX + "resources"))
        err("IXBRL_MORE_THAN_ONE_RESOURCES_HEADER_CHILD", "2")
    elif kind == "in-head":
        head = next(root.iter("{http://www.w3.org/1999/xhtml}head"))
        insert_any(r, head, box)
        err("IXBRL_HEADER_ELEMENT_IN_HEAD", None)
    elif kind in ("no-header", "no-resources"):
        if D.kinds or kind == "no-header" and hidden is not None:
            return False            # nothing else can be told then
        (box if kind == "no-header" else res).getparent().remove(box if kind == "no-header" else res)
        if kind == "no-header":
            err("IXBRL_NO_HEADER_ELEMENTS")
        err("IXBRL_NO_RESOURCES_ELEMENTS")
        for f in D.sp["facts"]:
            if kind == "no-header":     # without references there are no concepts either
                D.fact_errors.append(("IXBRL_FACT_INVALID_CONCEPT", f["id"], None, "concept"))
                continue
            D.fact_errors.append(("IXBRL_INVALID_FACT_CONTEXT_ID", f["id"], None, "context"))
            if f["unit"] is not None:
                D.fact_errors.append(("IXBRL_INVALID_FACT_UNIT_ID", f["id"], None, None))
    return True


def g(r):
    p = case(r, {"p_noid": 0.0, "footnotes": 0.0, "facts": (2, 10), "units": (1, 4), "p_dims": 0.6, "dims": (1, 3), "members": (2, 5), "typed": (0, 2), "contexts": (1, 4)})
    p["dseed"] = r.randrange(1 << 40)
    p["iseed"] = r.randrange(1 << 30)
    return p


def run(p, env):
    sp = ix.prepare(spec_of(p), p["iseed"])
    sp["footlinks"] = []
    for k, f in enumerate(sp["facts"]):
        f["id"] = f["id"] or f"tw{k}"
    ids = [f["id"] for f in sp["facts"]]
    if len(set(ids)) != len(ids) or not ids:
        return Obs(key_of(p), False)
    d = env.dir()
    render.write(ix.render_ix(sp, p["style"], p["iseed"]), d)
    path = os.path.join(d, sp["inst"])
    tree = etree.parse(path)
    r = random.Random(p["dseed"])
    D = Damage(sp, tree.getroot(), r)
    D.fact_errors, D.ctx_errors, D.unit_errors, D.head_errors, D.renamed = [], [], [], [], {}
    D.noid_c, D.noid_u, D.twice_u = [], [], []
    targets = set()
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        if targets and "head:gone" in targets:
            break
        if k < 0.45:
            n = r.randrange(len(sp["facts"]))
            kind = r.choice(FACT)
            t, fn = ("f", n), lambda: damage_fact(D, sp["facts"][n], kind)
        elif k < 0.7:
            n = r.randrange(len(sp["contexts"]))
            kind = r.choice(CTX + XC)
            t = ("c", n)

            def fn():
                e, i = D.ctx[sp["contexts"][n]["id"]], sp["contexts"][n]["id"]
                if kind == "c-no-id":
                    del e.attrib["id"]
                    D.noid_c.append(n)
                    return True
                if kind == "c-twice":
                    e2 = copy.deepcopy(e)
                    e2.tail = None
                    sub(e2, "entity", "identifier").text = "ANOTHER"
                    e.getparent().insert(e.getparent().index(e) + 1, e2)
                    D.ctx_errors.append(("IXBRL_DUPLICATE_ELEMENT_ID", i, i))
                    return True
                return damage_context(D, n, kind)
        elif k < 0.85:
            if not sp["units"]:
                continue
            n = r.randrange(len(sp["units"]))
            kind = r.choice(UNIT + XU)
            t = ("u", n)

            def fn():
                e, i = D.unit[sp["units"][n]["id"]], sp["units"][n]["id"]
                if kind == "u-no-id":
                    del e.attrib["id"]
                    D.noid_u.append(n)
                    return True
                if kind == "u-twice":
                    e2 = copy.deepcopy(e)
                    e2.tail = None
                    e.getparent().append(e2)
                    D.unit_errors.append(("IXBRL_DUPLICATE_ELEMENT_ID", i, i))
                    return True
                return damage_unit(D, n, kind)
        else:
            kind = r.choice(HEAD)
            t, fn = ("head:gone" if kind.startswith("no-") else "head"), lambda: damage_head(D, kind)
        if t in targets:
            continue
        if fn():
            targets.add(t)
            D.kinds.append(kind)
    # ---- what follows for the facts
    C = sp["contexts"]
    lost_ctx = {n for n, c in enumerate(C) for name, o, _ in D.ctx_errors if o == c["id"] and name in ("MISSING_CONTEXT_PERIOD", "MISSING_CONTEXT_ENTITY")}
    lost_ctx |= set(D.noid_c)
    gone_u = {n for n, u in enumerate(sp["units"]) for name, o, _ in D.unit_errors if o == u["id"] and name == "XML_MISSING_UNIT_MEASURE"} | set(D.noid_u)
    D.fact_errors = [(n.replace("XML_INVALID_FACT", "IXBRL_INVALID_FACT"), i, None if "XML_INVALID" in n else c, st) for n, i, c, st in D.fact_errors]
    gone_unit_facts = {i for n, i, _, st in D.fact_errors if n == "IXBRL_INVALID_FACT_UNIT_ID" and st == "unit"}
    dead = {}
    for n, i, c, st in D.fact_errors:
        if st in ("concept", "context"):
            dead[i] = min(dead.get(i, 9), {"concept": 0, "context": 2}[st])
    more = []
    for k, f in enumerate(sp["facts"]):
        i = f["id"]
        if f["ctx"] in lost_ctx and D.facts[i].get("contextRef") == C[f["ctx"]]["id"]:
            more.append(("IXBRL_INVALID_FACT_CONTEXT_ID", i, None, "context"))
            dead[i] = min(dead.get(i, 9), 2)
        if f["unit"] is not None and D.facts[i].get("unitRef") == sp["units"][f["unit"]]["id"] and (f["unit"] in gone_u or i in gone_unit_facts):
            more.append(("IXBRL_INVALID_FACT_UNIT_ID", i, None, None))
            D.want[i]["unit"] = None
    for i, f in D.extra.items():        # the wrapper has the context and the unit of what it wraps
        for n, o, st in [(n, o, st) for n, o, _, st in D.fact_errors + more if o == f["id"]]:
            if n in ("IXBRL_INVALID_FACT_CONTEXT_ID", "IXBRL_INVALID_FACT_UNIT_ID"):
                more.append((n, i, None, st))
                if st == "context":
                    dead[i] = 2
    D.fact_errors += more

    def note(name, o, culprit, must):
        o = D.renamed.get(o, o)
        k = (code_of(name), o)
        D.may.add(k)
        if must:
            D.must.add(k)
            if culprit:
                D.culprit.setdefault(k, set()).add(culprit)
    order = {"concept": 0, None: 9, "context": 2}
    for name, i, c, st in D.fact_errors:
        reach = dead.get(i, 9)
        # the unit is read before the context
        at = 1 if name in ("IXBRL_INVALID_FACT_UNIT_ID", "IXBRL_NON_FRACTION_WITHOUT_UNIT") else order.get(st, 9)
        now = D.facts[i]
        if name == "IXBRL_DUPLICATE_ELEMENT_ID" and sum(e.get("id") == c for e in tree.iter("{*}*")) < 2:
            continue            # the other one lost its id
        if name == "IXBRL_INVALID_FACT_CONTEXT_ID":
            if now.get("contextRef") is None:
                continue
            c = now.get("contextRef")
        if name == "IXBRL_INVALID_FACT_UNIT_ID":
            if now.get("unitRef") is None:
                continue
            c = now.get("unitRef")
        note(name, i, c, reach >= at)
    for name, i, c in D.ctx_errors:
        note(name, i, c, True)
    for name, i, c in D.unit_errors:
        note(name, i, c, True)
    for n in D.noid_c:
        note("IXBRL_CONTEXT_WITHOUT_ID", None, None, True)
    for n in D.noid_u:
        note("IXBRL_UNIT_WITHOUT_ID", None, None, True)
    for name, c in D.head_errors:
        note(name, None, c, True)
    if len(D.noid_c) > 1 or len(D.noid_u) > 1:
        D.may.add((code_of("IXBRL_DUPLICATE_ELEMENT_ID"), None))
    any_codes = {code_of(n) for n in D.may_any}
    tree.write(path, encoding="UTF-8", xml_declaration=True)
    if getattr(D, "zz", None):
        t = open(path, "rb").read()
        open(path, "wb").write(t.replace(b' id="wrapper"', b' id="wrapper" xmlns:zz="%s"' % D.zz.encode()))
    fl = Filing.open(path)
    errs = check_lists(fl)
    judge(D, [x for x in errs if x.get_full_error_code() not in any_codes or (x.get_full_error_code(), owner(x.get_context())) in D.may], owner)
    want = {D.renamed.get(i, i): w for i, w in D.want.items() if i not in dead}
    got = {}
    for f in fl.get_all_facts():
        o = observe.obs_fact(f)
        if o["id"] in got:
            raise Violation("defects:fact-twice", o["id"])
        got[o["id"]] = o
    extra = {i for i in D.extra if i not in dead}
    if set(got) - set(D.extra) != set(want) or extra - set(got):
        raise Violation("defects:facts", f"lost {sorted(set(want) - set(got))}, not expected {sorted(set(got) - set(want))}; {D.kinds}")
    E = sp["elements"]
    byid = {D.renamed.get(f["id"], f["id"]): f for f in sp["facts"]}
    for i, w in want.items():
        for n in NAMES:
            a, b = got[i][n], w[n]
            if b == ANY:
                continue
            if n == "value" and E[byid[i]["c"]]["type"] in gen.NUMERIC and a != b:
                try:
                    a, b = Decimal(a), Decimal(b)
                except Exception:
                    pass
            if a != b:
                raise Violation("defects:" + n, f"fact {i}: observed {got[i][n]!r}, expected {w[n]!r}; {D.kinds}")
    obs = Counter("damage_" + k for k in D.kinds)
    return Obs(key_of(p), bool(D.kinds), facts=len(want), lost=len(D.want) - len(want), errors=len(errs), **obs)


SPEC = dict(
    rule="random inline reports in random styles with one to five defects in facts, contexts, units and the header; a case is non-trivial when a defect was placed",
    assumptions=["what is expected of damaged parts: a fact whose concept or context does not exist, or whose context has no period or no entity, is not reported; any other defect only takes away the damaged aspect, accuracy or value"],
    minimum={"facts": 3000, "errors": 2000, **{"damage_" + k: 5 for k in FACT + CTX + UNIT + XC + XU + HEAD}},
    probes=[Probe("inline", 6000, 60000, g, run)])
