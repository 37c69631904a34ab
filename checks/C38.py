"""Filings of any size are read like small ones; documents that blow up are refused."""
from snap import *
import random
import resource
import time

import ix
import ixdoc
from brel.networks import FootnoteNetwork

observe.MAX_DEPTH = model.MAX_DEPTH = 400
AXES = {
    "facts": dict(facts=(500, 2500), contexts=(5, 20)),
    "contexts": dict(contexts=(150, 700), facts=(200, 800), entities=(1, 40)),
    "units": dict(units=(80, 300), facts=(100, 400)),
    "elements": dict(concepts=(200, 900), members=(20, 100), facts=(20, 60)),
    "roles": dict(roles=(60, 200), tree=(2, 5), concepts=(10, 20)),
    "wide": dict(concepts=(200, 600), tree=(200, 600), roles=(1, 2), chain=0.0, wide=0.95),
    "deep": dict(concepts=(100, 300), abstracts=(50, 80), tree=(100, 300), roles=(1, 2), chain=1.0, wide=0.0),
    "dims": dict(dims=(20, 40), typed=(8, 20), members=(30, 60), p_dims=1.0, contexts=(10, 30), facts=(20, 60)),
    "schemas": dict(schemas=(20, 60), concepts=(60, 120), roles=(1, 6)),
    "labels": dict(concepts=(100, 300), abstracts=(50, 100), labels=1.0, refs=0.8),
    "footnotes": dict(footnotes=1.0, p_noid=0.0, facts=(100, 300)),
}


def cells(fl, wanted):
    """the table of facts has a row for every fact and says the same"""
    df = fl.generate_fact_table_pandas_df()
    if len(df) != len(fl.get_all_facts()):
        raise Violation("size:table", f"{len(df)} rows for {len(fl.get_all_facts())} facts")
    have = Counter(x for c in df.columns for x in df[c])
    lost = [w for w, n in Counter(wanted).items() if have[w] < n and not any(w in str(x) for x in have if len(str(x)) > len(w))]
    if lost:
        raise Violation("size:table", f"not in the table: {[(len(w), w[:40]) for w in lost[:5]]}")


def g(r):
    p = case(r, {"p_big": 0.0})
    axis = r.choice(list(AXES))
    p["over"] = dict(p["over"], **AXES[axis])
    p["axis"] = axis
    return p


def run(p, env):
    sp = spec_of(p)
    if p["axis"] == "footnotes" and sp["footlinks"]:
        r = random.Random(p["gseed"])
        with_id = [i for i, f in enumerate(sp["facts"]) if f["id"]]
        sp["footlinks"][0]["notes"] += [{"text": f"more {k}", "lang": "en", "facts": sorted(r.sample(with_id, min(len(with_id), 3))), "order": None} for k in range(r.randint(50, 200))]
    if p["axis"] == "units":
        r = random.Random(p["gseed"])
        for u in sp["units"][::7]:
            u["num"] = u["num"] + [r.choice(u["num"]) for _ in range(r.randint(5, 40))]
    fl = open_spec(sp, p["style"], env)
    check("size", full(fl), want(sp), p["axis"])
    cells(fl, [f.get_value_as_str() for f in fl.get_all_facts()])
    n = Counter(facts=len(sp["facts"]), contexts=len(sp["contexts"]), elements=len(sp["elements"]), arcs=sum(len(x.get("arcs", [])) for x in sp["links"]), schemas=len(sp["schemas"]))
    return Obs(key_of(p), True, **n, **{"axis_" + p["axis"]: 1})


# ---- long texts and deep nesting
PLACES = ["fact", "typed", "entity", "label", "definition", "footnote", "inline", "escaped", "image", "hidden", "comment", "continued"]
NS = "http://size.invalid/t"
HEAD = ('<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:t="' + NS + '">'
        '%s<link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>')
CTX = ('<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s.org">%s</xbrli:identifier><xbrli:segment><xbrldi:typedMember dimension="t:Dim"><t:Dom>%s</t:Dom></xbrldi:typedMember></xbrli:segment></xbrli:entity>'
       '<xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>')
SCHEMA = ('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
          'xmlns:t="' + NS + '" targetNamespace="' + NS + '"><xs:annotation><xs:appinfo><link:roleType roleURI="http://size.invalid/r" id="r"><link:definition>%s</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>'
          '<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:href="lab.xml"/></xs:appinfo></xs:annotation>%s'
          '<xs:element name="A" id="t_A" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>'
          '<xs:element name="Dim" id="t_Dim" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="duration" xbrldt:typedDomainRef="#t_Dom"/>'
          '<xs:element name="Dom" id="t_Dom" type="xs:string"/></xs:schema>')
LABEL = ('<link:linkbase xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink"><link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">'
         '<link:loc xlink:type="locator" xlink:href="t.xsd#t_A" xlink:label="l"/><link:label xlink:type="resource" xlink:label="r" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en">%s</link:label>'
         '<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="l" xlink:to="r"/></link:labelLink></link:linkbase>')
FOOT = ('<link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link"><link:loc xlink:type="locator" xlink:href="#f" xlink:label="l"/>'
        '<link:footnote xlink:type="resource" xlink:label="n" xlink:role="http://www.xbrl.org/2003/role/footnote" xml:lang="en">%s</link:footnote>'
        '<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="l" xlink:to="n"/></link:footnoteLink>')


def long_text(r, n):
    """a text of n characters in which no two parts are alike"""
    part = "%x" % r.getrandbits(4000) + " é日 "
    out = []
    k = 0
    while k < n:
        s = f"[{len(out)}]" + part[:r.choice([50, 500, 900])].rstrip()
        out.append(s)
        k += len(s)
    return "".join(out)[:n - 1] + "|"


def g_long(r):
    # below, around and above every power of two and the limits of the parser
    n = r.choice([r.randint(200, 5000), 2 ** r.randint(8, 16) + r.randint(-2, 3), r.randint(60_000, 300_000), 10_000_000 + r.randint(-3, 400_000)])
    return {"place": r.choice(PLACES), "n": n, "s": r.randrange(1 << 40)}


def run_long(p, env):
    r = random.Random(p["s"])
    x, k, d = long_text(r, p["n"]), p["place"], env.dir()
    T = lambda where, other: x if k == where else other
    if k in ("inline", "escaped", "image", "hidden", "continued"):
        tag = lambda body, at="": f'<ix:nonNumeric id="f" name="d:Text" contextRef="c"{at}>{body}</ix:nonNumeric>'
        body = {"inline": "<p>" + tag(x) + "</p>", "escaped": tag(f"<b>{x}</b>", ' escape="true"'), "image": f'<p><img src="data:image/png;base64,{x}"/></p><p>' + tag("v") + "</p>", "hidden": "<p/>",
                "continued": tag(x[:p["n"] // 2], ' continuedAt="k"') + f'<ix:continuation id="k">{x[p["n"] // 2:]}</ix:continuation>'}[k]
        fl = Filing.open(ixdoc.write(d, body, hidden=tag(x) if k == "hidden" else ""))
        got = [f.get_value_as_str() for f in fl.get_all_facts()]
        if k == "escaped":
            got = [v[v.index("[0]"):v.rindex("|") + 1] for v in got]
        wanted = ["v" if k == "image" else x]
    else:
        render.write({"t.xsd": (SCHEMA % (T("definition", "def"), "")).encode(), "lab.xml": (LABEL % T("label", "lab")).encode(),
                      "i.xml": (HEAD % (f"<!--{x}-->" if k == "comment" else "") + CTX % (T("entity", "ent"), T("typed", "tv")) + f'<t:A id="f" contextRef="c">{T("fact", "val")}</t:A>' + FOOT % T("footnote", "note") + "</xbrli:xbrl>").encode()}, d)
        fl = Filing.open(os.path.join(d, "i.xml"))
        f, = fl.get_all_facts()
        typed, = [f.get_characteristic(a) for a in f.get_aspects() if not a.is_core()]
        notes = [n.get_resource().get_content() for net in fl.get_all_physical_networks() if isinstance(net, FootnoteNetwork) for n in net.get_all_nodes() if n.points_to() == "resource"]
        got = [f.get_value_as_str(), typed.get_value(), observe.obs_fact(f)["entity"][-1], f.get_concept().get_labels()[0].get_content(), fl.get_all_components()[0].get_info() if fl.get_all_components() else "def"] + notes
        wanted = [T("fact", "val"), T("typed", "tv"), T("entity", "ent"), T("label", "lab"), T("definition", "def"), T("footnote", "note")]
    if got != wanted:
        raise Violation("size:text", f"{k} of {p['n']} characters: " + str([(len(a), a[:30], a[-30:]) if a != b else "ok" for a, b in zip(got, wanted)] or got))
    cells(fl, [x] if k not in ("image", "comment", "label", "definition", "footnote", "escaped") else [])
    return Obs(key_of(p["place"], p["n"], p["s"]), True, texts=1, over_10mb=int(p["n"] > 10_000_000), **{"place_" + k: 1})


def g_deep(r):
    return {"kind": r.choice(["tuples", "html", "escaped", "facts", "imports", "siblings"]), "n": r.choice([r.randint(10, 250), r.randint(251, 400)])}


def run_deep(p, env):
    k, n, d = p["kind"], p["n"], env.dir()
    if k in ("tuples", "imports"):
        files = {"t.xsd": SCHEMA % ("d", '<xs:import namespace="http://size.invalid/1" schemaLocation="m1.xsd"/>' if k == "imports" else ""), "lab.xml": LABEL % "l"}
        if k == "imports":
            for i in range(1, n + 1):
                nxt = f'<xs:import namespace="http://size.invalid/{i + 1}" schemaLocation="m{i + 1}.xsd"/>' if i < n else ""
                files[f"m{i}.xsd"] = (f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" targetNamespace="http://size.invalid/{i}">{nxt}'
                                      f'<xs:element name="E{i}" id="m_E{i}" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>')
            n_t = 0
        else:
            n_t = n
        files["i.xml"] = HEAD % "" + CTX % ("e", "v") + "<t:T>" * n_t + '<t:A id="f" contextRef="c">x</t:A>' + "</t:T>" * n_t + "</xbrli:xbrl>"
        render.write({a: b.encode() for a, b in files.items()}, d)
        fl = Filing.open(os.path.join(d, "i.xml"))
        names = sorted(e.get_name().local_name for e in fl.get_all_report_elements() if e.get_name().local_name.startswith("E"))
        must_equal("size:imports", names, sorted(f"E{i}" for i in range(1, n + 1)) if k == "imports" else [])
        must_equal("size:nesting", [(f.get_id(), f.get_value_as_str()) for f in fl.get_all_facts()], [("f", "x")])
    else:
        tag = lambda i, body, at="": f'<ix:nonNumeric id="f{i}" name="d:Text" contextRef="c"{at}>{body}</ix:nonNumeric>'
        if k == "html":
            body, wanted = "<div>" * n + tag(0, "x") + "</div>" * n, {"f0": "x"}
        elif k == "escaped":
            n = min(n, 250)
            body, wanted = tag(0, "<div>" * n + "x" + "</div>" * n, ' escape="true"'), None
        elif k == "facts":
            n = min(n, 200)
            body = "x"
            for i in range(n):
                body = tag(i, f"{i}{body}")
            wanted = {f"f{i}": "".join(str(j) for j in range(i, -1, -1)) + "x" for i in range(n)}
        else:
            n = 4 * n
            body, wanted = "".join(f"<p>{i}{tag(i, f'v{i}')}</p>" for i in range(n)), {f"f{i}": f"v{i}" for i in range(n)}
        fl = Filing.open(ixdoc.write(d, body))
        got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
        if wanted is None:
            v = got.pop("f0")
            if v.count("<div") != n or v.count("</div>") != n or "x" not in v or got:
                raise Violation("size:nesting", f"escaped markup of {n} levels: {v.count('<div')} {v.count('</div>')}")
        else:
            must_equal("size:nesting", got, wanted)
    return Obs(key_of(p), True, deep=1, **{"deep_" + k: 1})


# ---- documents that blow up
def g_bomb(r):
    return {"where": r.choice(["instance", "schema", "linkbase", "inline", "attribute"]), "form": r.choice(["nested", "quadratic", "parameter", "loop"]), "enc": r.choice(["utf-8", "utf-8", "utf-16", "utf-16-be", "iso-8859-1"]),
            "kind": r.choice(["file", "folder"]), "levels": r.randint(8, 12), "fan": r.randint(8, 20)}


def run_bomb(p, env):
    d = env.dir()
    n, m = p["levels"], p["fan"]
    dtd = {"nested": '<!ENTITY e0 "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa">' + "".join(f'<!ENTITY e{i} "{f"&e{i - 1};" * m}">' for i in range(1, n + 1)),
           "quadratic": f'<!ENTITY e{n} "{"a" * 100_000}">',
           "parameter": "<!ENTITY % p0 '&#60;!ENTITY q \"" + "b" * 50 + "\">'>" + '<!ENTITY e0 "' + "b" * 60 + '">' + "".join(f'<!ENTITY e{i} "{f"&e{i - 1};" * m}">' for i in range(1, n + 1)) + " %p0;",
           "loop": f'<!ENTITY e{n} "x&e0;"><!ENTITY e0 "y&e{n};">'}[p["form"]]
    ref = f"&e{n};" * (20_000 if p["form"] == "quadratic" else 1)
    at = p["where"] == "attribute"
    files = {"t.xsd": SCHEMA % ("d", ""), "lab.xml": LABEL % (ref if p["where"] == "linkbase" else "l"),
             "i.xml": HEAD % "" + CTX % ("e", "v") + f'<t:A id="f" contextRef="{ref if at else "c"}">{ref if p["where"] == "instance" else "x"}</t:A></xbrli:xbrl>'}
    if p["where"] == "schema":
        files["t.xsd"] = SCHEMA % (ref, "")
    target = {"instance": "i.xml", "attribute": "i.xml", "schema": "t.xsd", "linkbase": "lab.xml"}.get(p["where"])
    if p["where"] == "inline":
        ixdoc.write(d, f'<p><ix:nonNumeric id="f" name="d:Text" contextRef="c">{ref}</ix:nonNumeric></p>')
        target, d0 = "doc.xhtml", d
        with open(os.path.join(d, target), encoding="utf-8") as f:
            files = {target: f.read()}
    x = files[target]
    x = x[x.index("?>") + 2:] if x.startswith("<?xml") else x
    name = x.lstrip()[1:].split()[0].split(">")[0]
    files[target] = f'<?xml version="1.0" encoding="{p["enc"].replace("-be", "")}"?><!DOCTYPE {name} [{dtd}]>{x.lstrip()}'
    out = {a: b.encode() for a, b in files.items()}
    out[target] = (b"\xfe\xff" if p["enc"] == "utf-16-be" else b"") + files[target].encode(p["enc"], "xmlcharrefreplace")
    render.write(out, d)
    before, t = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss, time.process_time()
    try:
        fl = Filing.open(d if p["kind"] == "folder" else os.path.join(d, "doc.xhtml" if p["where"] == "inline" else "i.xml"))
        total = sum(len(f.get_value_as_str()) for f in fl.get_all_facts())
        raise Violation("size:bomb", f"{p['form']} entities in the {p['where']} were expanded: {total} characters of facts")
    except Violation:
        raise
    except Exception:
        pass
    grown, t = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before, time.process_time() - t
    if grown > 1_500_000 or t > 60:
        raise Violation("size:bomb", f"{p['form']} entities in the {p['where']}: {grown} kB and {t} s were used before the document was refused")
    return Obs(key_of(p), True, bombs=1, **{"bomb_" + p["form"]: 1, "in_" + p["where"]: 1})


SPEC = dict(
    rule="filings grown along one axis far beyond those of the other checks, texts of up to more than 10 MB in every place of a filing, deep nesting, and documents with entities that multiply; all are non-trivial",
    minimum={"facts": 80000, "contexts": 15000, "elements": 50000, "arcs": 30000, "texts": 400, "over_10mb": 80, "deep": 150, "bombs": 150, **{"axis_" + a: 5 for a in AXES}, **{"place_" + a: 10 for a in PLACES}},
    probes=[Probe("grown", 450, 4000, g, run), Probe("long", 500, 5000, g_long, run_long), Probe("deep", 200, 1000, g_deep, run_deep), Probe("bomb", 200, 1000, g_bomb, run_bomb)])
