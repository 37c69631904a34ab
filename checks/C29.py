"""Tables: one row per item, saying what the objects say, in the languages asked for."""
import csv
import random

from slices import *
import gen
import pandas as pd
from brel.characteristics import Aspect
from brel.config.brel_config import BrelConfig
from brel.reportelements import Abstract, Concept, Dimension, Hypercube, LineItems, Member

BASE = "http://www.brel.com/translations/"
FLAGS = ("match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language")
POOL = ["en", "en-US", "en-us", "EN-US", "de", "de-DE", "DE", "de-AT", "fr-FR", "fr", "fr-CH", "es-ES", "it", "it-IT", "it-CH", "nl", "zh", "xx", "pt-BR", ""]
KIND = {Abstract: "abstract", Hypercube: "hypercube", Dimension: "dimension", LineItems: "line-items", Member: "member", Concept: "concept"}
_CSV = {}


def translations():
    if not _CSV:
        with open(os.path.join(os.environ["VERIF_REPO"], "brel", "config", "translations.csv"), encoding="utf-8-sig", newline="") as f:
            for row in csv.DictReader(f):
                _CSV.setdefault((row["namespace"], row["localname"]), []).append((row["language"] + "-" + row["locale"], row["value"]))
    return _CSV


class Missing(Exception):
    pass


class Said:
    """what there is to say in a list of languages"""

    def __init__(self, langs, locale):
        self.langs, self.locale = langs, locale

    def match(self, asked, have):
        a, h = asked.lower(), have.lower()
        return a == h if self.locale else a.split("-")[0] == h.split("-")[0]

    def tr(self, space, name):
        have = translations().get((BASE + space, name))
        for lang in self.langs:
            if lang == "" or have is None:
                return name
            for h, v in have:
                if self.match(lang, h):
                    return v
        raise Missing(space + ":" + name)

    def labels(self, labels, default):
        for lang in self.langs:
            if lang == "":
                return default
            for t, h in labels:
                if self.match(lang, h):
                    return t
        raise Missing(default)


def pairs(labels):
    return [(str(x), x.get_language()) for x in labels]


def main_label(labels):
    for l in ("en", "en-US", "en-GB", "EN", "EN-US", "EN-GB"):
        for t, h in labels:
            if h == l:
                return t
    return labels[0][0] if labels else "NO_LABEL"


class Clash(Exception):
    pass


def row(items):
    d = {}
    for k, v in items:
        if k in d:
            raise Clash(k)
        d[k] = v
    return d


def fact_row(f, S):
    out = []
    for a in f.get_aspects():
        c = f.get_characteristic(a)
        v = c.get_value()
        if S is None:
            out.append((a.get_name(), str(v)))
            continue
        head = S.labels(pairs(a.get_labels()), a.get_name())
        if a == Aspect.CONCEPT:
            cell = S.labels(pairs(v.get_labels()), v.get_name().get_local_name())
        elif a == Aspect.UNIT:
            cell = S.tr("unit", c.get_name())
        elif isinstance(v, Member):
            cell = S.labels(pairs(v.get_labels()), v.get_name().get_local_name())
        else:
            cell = str(v)
        out.append((head, cell))
    i = f._get_id()
    if S is None:
        return row(out + [("id", i or ""), ("value", str(f))])
    return row(out + [(S.tr("literal", "id"), i if i else S.tr("literal", "none")), (S.tr("literal", "value"), str(f))])


def element_row(e, S):
    ls = pairs(e.get_labels())
    kind = KIND[type(e)]
    name = e.get_name().prefix_local_name_notation()
    con, dim = isinstance(e, Concept), isinstance(e, Dimension)
    typ = None
    if dim and not e.is_explicit():
        typ = e.get_type()
    if S is None:
        out = [("name", name), ("label", main_label(ls)), ("report-element-type", kind.replace("line-items", "line item"))]
        if con:
            out += [("period-type", e.get_period_type()), ("balance-type", e.get_balance_type()), ("nillable", e.is_nillable()), ("data-type", e.get_data_type())]
        if dim:
            out += [("is-explicit", e.is_explicit()), ("dimension_type", typ.prefix_local_name_notation() if typ else None)]
        return row(out)
    L = lambda x: S.tr("literal", x)
    out = [(L("name"), name), (L("label"), S.labels(ls, main_label(ls))), (L("report-element-type"), S.tr("report-element", kind))]
    if con:
        out += [(L("period-type"), S.tr("period-type", e.get_period_type())), (L("balance-type"), S.tr("balance-type", e.get_balance_type()) if e.get_balance_type() else L("none")),
                (L("nillable"), S.tr("boolean", str(e.is_nillable()).lower())), (L("data-type"), S.tr("data-type", e.get_data_type().split(":")[-1]))]
    if dim:
        out += [(L("is-explicit"), S.tr("boolean", str(e.is_explicit()).lower())), (L("dimension-type"), S.tr("data-type", typ.get_local_name()) if typ else L("none"))]
    return row(out)


def component_row(c, S):
    nets = [(k + "-network", n is not None) for k, n in (("presentation", c.get_presentation_network()), ("calculation", c.get_calculation_network()), ("definition", c.get_definition_network()))]
    if S is None:
        return row([("network-identifier", c.get_URI()), ("info", c.get_info())] + nets)
    return row([(S.tr("literal", "network-identifier"), c.get_URI()), (S.tr("literal", "info"), c.get_info())] + [(S.tr("literal", k), S.tr("boolean", str(v).lower())) for k, v in nets])


def table(df):
    out = []
    for rec in df.to_dict("records"):
        out.append({k: v for k, v in rec.items() if v is not None and not (isinstance(v, float) and v != v)})
    return out


def expected(items, fn, o):
    """the rows, or Missing when they cannot be said in the languages"""
    langs = o["languages"]
    one = lambda langs: [fn(x, Said(langs, o["match_locale"]) if langs else None) for x in items]
    if o["allow_mixed"]:
        return one(langs)
    for l in langs:
        try:
            return one([l])
        except Missing:
            continue
    return []


def resolve(call, filing, lib, system, report):
    o = {}
    for k in FLAGS:
        o[k] = next((x[k] for x in (call, filing, lib) if x.get(k) is not None), False)
    langs = []
    for x in (call, filing, lib):
        l = x.get("languages") or []
        langs += [l] if isinstance(l, str) else l
    if o["allow_system_language"] and system:
        langs.append(system.replace("_", "-"))
    if o["allow_report_language"]:
        langs += report
    if o["allow_default"]:
        langs.append("")
    o["languages"] = list(dict.fromkeys(langs))
    return o


def options(r, p_flag):
    d = {k: r.random() < 0.6 for k in FLAGS if r.random() < p_flag}
    if r.random() < 0.7 * p_flag + 0.2:
        ls = [r.choice(POOL) for _ in range(r.choice([1, 1, 2, 3]))]
        d["languages"] = ls[0] if len(ls) == 1 and ls[0] and r.random() < 0.5 else ls
    return d


TABLES = ("facts", "core", "elements", "components")


def parts(fl):
    return {"facts": (fl.get_all_facts(), fact_row, fl.generate_fact_table_pandas_df), "core": (fl.get_all_core_facts(), fact_row, fl.generate_core_fact_table_pandas_df),
            "elements": (fl.get_all_report_elements(), element_row, fl.generate_report_elements_as_pandas_df),
            "components": (fl.get_all_components(), component_row, fl.generate_components_as_pandas_df)}


def compare(name, items, fn, make, o, call, obs):
    try:
        want = expected(items, fn, o)
    except Missing as e:
        obs["unsayable"] += 1
        try:
            got = make(**call)
        except KeyError:
            return
        except ValueError:
            return
        raise Violation(f"tables:{name}-language", f"{e} cannot be said in {o}, but the table is {table(got)[:2]}")
    try:
        df = make(**call)
    except Exception as e:
        raise Violation(f"tables:{name}-refused", f"{type(e).__name__} {e} with {o}, asked {call}; expected {want[:1]}"[:900])
    got = table(df)
    want = [{k: v for k, v in w.items() if v is not None} for w in want]
    if len(got) != len(want):
        raise Violation(f"tables:{name}-rows", f"{len(got)} rows for {len(want)} items with {o}")
    for g, w in zip(got, want):
        if g != w:
            raise Violation(f"tables:{name}-cells", f"observed {({k: v for k, v in g.items() if w.get(k) != v})}, expected {({k: v for k, v in w.items() if g.get(k) != v})} in row {w}; {o}"[:1200])
    obs[name] += len(want)
    if want and not o["allow_mixed"]:
        obs["one_language"] += 1
    if want and o["languages"]:
        obs["translated"] += 1


def g(r):
    p = case(r, r.choice([{"facts": (1, 8), "labels": True}, {"facts": (1, 6), "dims": (1, 3), "members": (2, 5), "p_dims": 0.7, "typed": (0, 2)}]))
    p["oseed"] = r.randrange(1 << 40)
    return p


SYSTEMS = ["C.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8", "it_CH.UTF-8", "es_ES", "C", "POSIX", None]


def run(p, env):
    r = random.Random(p["oseed"])
    sp = spec_of(p)
    fl = open_spec(sp, p["style"], env)
    lib0, env0 = dict(BrelConfig.output_params), {k: os.environ.get(k) for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE")}
    obs = Counter()
    clash = 0
    try:
        lib = dict(lib0)
        if r.random() < 0.4:
            lib = options(r, r.choice([0.3, 1.0]))
            Filing.set_global_output_params(**lib)
        if r.random() < 0.2:
            ls = [r.choice(POOL) for _ in range(r.choice([1, 2, 3]))]
            lib["languages"] = ls[0] if len(ls) == 1 and ls[0] and r.random() < 0.5 else ls
            BrelConfig.set_preferred_library_languages(lib["languages"])
        filing = {}
        for step in range(r.choice([1, 2, 3])):
            if r.random() < 0.4:
                filing = options(r, r.choice([0.2, 0.6]))
                fl.set_filing_output_params(**filing)
            system = r.choice(SYSTEMS)
            for k in env0:
                os.environ.pop(k, None)
            if system is not None:
                os.environ["LC_ALL"] = system
            sysl = None if system in (None, "C", "POSIX") else system.split(".")[0]
            call = options(r, r.choice([0.0, 0.3, 1.0]))
            report = sorted(languages_of(sp, p["style"]))
            o = resolve(call, filing, lib, sysl, report)
            P = parts(fl)
            for name in TABLES:
                try:
                    compare(name, *P[name], o, call, obs)
                except Clash:
                    clash += 1
    finally:
        BrelConfig.output_params = lib0
        for k, v in env0.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    lab = table(fl.generate_labels_as_pandas_df())
    want = [{"text": str(l), "language": l.get_language(), "label_role": l.get_label_role(), "report_element": e.get_name()} for e in fl.get_all_report_elements() for l in e.get_labels()]
    if lab != want:
        raise Violation("tables:labels", f"{len(lab)} rows for {len(want)} labels; {[x for x in lab if x not in want][:2]}")
    return Obs(key_of(p), bool(obs), clash=clash, labels=len(want), **obs)


XSD = """<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" targetNamespace="http://x.invalid/a" xmlns:a="http://x.invalid/a">
<xs:annotation><xs:appinfo><link:linkbaseRef xlink:type="simple" xlink:href="l.xml" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/></xs:appinfo></xs:annotation>
<xs:element name="AAxis" id="AAxis" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="instant"/>
<xs:element name="BAxis" id="BAxis" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="instant"/>
<xs:element name="AMember" id="AMember" type="nonnum:domainItemType" substitutionGroup="xbrli:item" abstract="true" xbrli:periodType="instant"/>
<xs:element name="BMember" id="BMember" type="nonnum:domainItemType" substitutionGroup="xbrli:item" abstract="true" xbrli:periodType="instant"/>
<xs:element name="Amount" id="Amount" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>
</xs:schema>"""
LAB = """<link:linkbase xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink"><link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">%s</link:labelLink></link:linkbase>"""
LOC = """<link:loc xlink:type="locator" xlink:href="a.xsd#%(n)s" xlink:label="%(n)s"/><link:label xlink:type="resource" xlink:label="l%(n)s" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en-US">%(t)s</link:label>
<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="%(n)s" xlink:to="l%(n)s"/>"""
INST = """<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:a="http://x.invalid/a">
<link:schemaRef xlink:type="simple" xlink:href="a.xsd"/>
<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s">e</xbrli:identifier><xbrli:segment>
<xbrldi:explicitMember dimension="a:AAxis">a:AMember</xbrldi:explicitMember><xbrldi:explicitMember dimension="a:BAxis">a:BMember</xbrldi:explicitMember>
</xbrli:segment></xbrli:entity><xbrli:period><xbrli:instant>2020-01-01</xbrli:instant></xbrli:period></xbrli:context>
<a:Amount id="f" contextRef="c">1</a:Amount></xbrli:xbrl>"""


def same_heading(p, env):
    """two dimensions with the same label in one context"""
    d = env.dir()
    texts = {"AAxis": "Region", "BAxis": "Region", "AMember": "North", "BMember": "South", "Amount": "Amount"}
    render.write({"a.xsd": XSD.encode(), "l.xml": (LAB % "".join(LOC % {"n": n, "t": t} for n, t in texts.items())).encode(), "i.xml": INST.encode()}, d)
    rows = table(Filing.open(d + "/i.xml").generate_fact_table_pandas_df(languages="en-US"))
    if len(rows) != 1 or not {"North", "South"} <= set(rows[0].values()):
        raise Violation("tables:same-heading" if len(rows) == 1 and {"North", "South"} & set(rows[0].values()) else "tables:facts-cells", f"the table {rows} shows only one of the members North and South")
    return Obs("same-heading", True)


def languages_of(sp, style):
    out = set()
    for v in render.render(sp, style).values():
        for e in __import__("lxml.etree").etree.fromstring(v).iter("*"):
            l = e.get("{http://www.w3.org/XML/1998/namespace}lang")
            if l is not None:
                out.add(l)
    return out


SPEC = dict(
    rule="random reports with labels in seven languages, tables asked for under random options of the call, the filing and the library, and random system languages; non-trivial when a row was compared",
    assumptions=["names, aspects, labels and characteristics are those the objects report (C01 - C06)"],
    minimum={"facts": 3000, "elements": 10000, "components": 1000, "translated": 1000, "one_language": 300, "unsayable": 100, "labels": 5000},
    probes=[Probe("tables", 2500, 25000, g, run), Probe("same-heading", 1, 1, None, same_heading, fixed=[{}])])
