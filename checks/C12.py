"""Discovery: every document reachable from the entry point is loaded, no other."""
import random
import sys
from urllib.parse import quote
from xml.sax.saxutils import escape
from common import *
from render import LINK, XBRLI, XLINK, XS, rel

OPENED = None


def hook(event, args):
    if OPENED is not None and event == "open" and isinstance(args[0], str):
        m = args[1]
        OPENED.append((os.path.abspath(args[0]), m))


sys.addaudithook(hook)


def gen_graph(r, plain=False):
    n = r.randint(2, 9)
    dirs = ["", "", "", "a/", "a/b/", "z.d/"]
    docs = []
    for i in range(n):
        kind = "s" if i == 0 or r.random() < 0.65 else "l"
        docs.append({"kind": kind, "path": r.choice(dirs) + (r.choice(["s%d.xsd", "tax-%d.2024.xsd", "S %d.xsd", "ü%d.xsd", *([] if plain else ["a+%d.xsd", "50%% (%d).xsd", "q&%d=;,.xsd"])]) if kind == "s" else r.choice(["l%d.xml", "lb_%d.lab.xml"])) % i, "edges": []})
    S = [i for i in range(n) if docs[i]["kind"] == "s"]
    base = r.random() < 0.15
    if base:    # two documents of the same name in different directories
        for i in S[1:]:
            docs[i]["path"] = f"d{i}/" + docs[0]["path"].rsplit("/", 1)[-1]
    if not base and r.random() < 0.15:    # names that differ in case only
        for i in range(1, n):
            o = r.choice([x for x in docs[:i] if x["kind"] == docs[i]["kind"]] or [None])
            if o:
                c = r.choice([o["path"].upper()[:-3] + o["path"][-3:], o["path"].swapcase()[:-3] + o["path"][-3:], o["path"].capitalize()])
                if c not in [x["path"] for x in docs]:
                    docs[i]["path"] = c
    # every edge target depends on the kind of the source
    for i, d in enumerate(docs):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            j = r.randrange(n)
            if d["kind"] == "s":
                how = r.choice(["import", "include", "import", "include", "loc", "roleRef"]) if docs[j]["kind"] == "s" else "linkbaseRef"
            else:
                how = r.choice(["loc", "roleRef", "arcroleRef", "schemaLocation"]) if docs[j]["kind"] == "s" else None
            if how is None:
                continue
            d["edges"].append([how, j])
    entry = [["schemaRef", 0]]
    for _ in range(r.choice([0, 0, 1, 2])):
        j = r.randrange(n)
        entry.append(["schemaRef" if docs[j]["kind"] == "s" else "linkbaseRef", j])
    return {"docs": docs, "entry": entry, "inst": r.choice(["", "i/", "a/"]) + "inst.xml", "style": {"shuffle": r.random() < 0.5, "comment": r.random() < 0.5, "dot": r.random() < 0.3, "ws": not plain and r.random() < 0.2, "xl": r.choice(["xlink", "x"])}, "seed": r.randrange(1 << 30)}


def url(p):
    return "".join(c if c.isascii() and c not in " %" else quote(c) for c in p)


def build(g):
    r = random.Random(g["seed"])
    docs, st = g["docs"], g["style"]
    xl = st["xl"]
    out = {}

    def ref(j, frm, frag=False):
        t = url(rel(docs[j]["path"], frm))
        if st["dot"] and r.random() < 0.5:
            t = "./" + t
        t = escape(t + (f"#e{j}" if frag else ""))
        return r.choice(["", " ", "\n "]) + t + r.choice(["", " "]) if st.get("ws") and r.random() < 0.4 else t

    def comment(frm):
        return f'<!-- <link:linkbaseRef {xl}:href="decoy0.xsd"/> schemaLocation="decoy1.xsd" -->' if st["comment"] else ""

    def one(how, j, frm):
        if how == "import":
            return f'<xs:import namespace="urn:n{j}" schemaLocation="{ref(j, frm)}"/>'
        if how == "include":
            return f'<xs:include schemaLocation="{ref(j, frm)}"/>'
        if how in ("linkbaseRef", "schemaRef"):
            return f'<link:{how} {xl}:type="simple" {xl}:href="{ref(j, frm)}" {xl}:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>'
        if how == "loc":
            return f'<link:labelLink {xl}:type="extended" {xl}:role="http://www.xbrl.org/2003/role/link"><link:loc {xl}:type="locator" {xl}:href="{ref(j, frm, True)}" {xl}:label="u"/></link:labelLink>'
        if how == "roleRef":
            return f'<link:roleRef {xl}:type="simple" roleURI="urn:r{j}" {xl}:href="{ref(j, frm, True)}"/>'
        if how == "arcroleRef":
            return f'<link:arcroleRef {xl}:type="simple" arcroleURI="urn:r{j}" {xl}:href="{ref(j, frm, True)}"/>'
        raise AssertionError(how)
    for i, d in enumerate(docs):
        ns = f'xmlns:xs="{XS}" xmlns:link="{LINK}" xmlns:{xl}="{XLINK}" xmlns:xbrli="{XBRLI}" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'
        if d["kind"] == "s":
            imp = [one(h, j, d["path"]) for h, j in d["edges"] if h in ("import", "include")]
            lbs = [one(h, j, d["path"]) for h, j in d["edges"] if h == "linkbaseRef"]
            inner = [one(h, j, d["path"]) for h, j in d["edges"] if h in ("loc", "roleRef")]
            if inner:    # a link base within the schema
                lbs.insert(r.randint(0, len(lbs)), "<link:linkbase>" + "".join(inner) + "</link:linkbase>")
            app = "<xs:annotation><xs:appinfo>" + "".join(lbs) + "</xs:appinfo></xs:annotation>" if lbs else ""
            out[d["path"]] = f'<xs:schema {ns} targetNamespace="urn:n{i}" xmlns:t="urn:n{i}">{comment(d["path"])}{app}{"".join(imp)}<xs:element name="E{i}" id="e{i}" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>'
        else:
            sl = [ref(j, d["path"]) for h, j in d["edges"] if h == "schemaLocation"]
            attr = f' xsi:schemaLocation="urn:x {sl[0]}"' if sl else ""
            rest = [one(h, j, d["path"]) for h, j in d["edges"] if h != "schemaLocation"]
            out[d["path"]] = f'<link:linkbase {ns}{attr}>{comment(d["path"])}{"".join(rest)}</link:linkbase>'
            # only the first schemaLocation is written: forget the others
            k = [e for e in d["edges"] if e[0] == "schemaLocation"]
            d["edges"] = [e for e in d["edges"] if e[0] != "schemaLocation"] + k[:1]
    inst = g["inst"]
    out[inst] = f'<xbrli:xbrl xmlns:xbrli="{XBRLI}" xmlns:link="{LINK}" xmlns:{xl}="{XLINK}">{comment(inst)}' + "".join(one(h, j, inst) for h, j in g["entry"]) + "</xbrli:xbrl>"
    # decoys that nothing refers to
    for k in range(2):
        for dd in {os.path.dirname(x) for x in out}:
            p = (dd + "/" if dd else "") + f"decoy{k}.xsd"
            out.setdefault(p, f'<xs:schema xmlns:xs="{XS}" xmlns:xbrli="{XBRLI}" targetNamespace="urn:decoy{k}"><xs:element name="Decoy{k}" id="d{k}" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>')
    return {k: v.encode() for k, v in out.items()}


def reach(g):
    seen, todo = set(), [j for _, j in g["entry"]]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += [j for _, j in g["docs"][i]["edges"]]
    return seen


def run(g, env):
    global OPENED
    files = build(g)
    d = os.path.realpath(env.dir())
    render.write(files, d)
    want = reach(g)
    entry = os.path.join(d, g["inst"])
    if g.get("relative"):
        os.chdir(os.path.dirname(entry) or d)
        entry = os.path.basename(entry)
    OPENED = []
    try:
        fl = Filing.open(entry)
    finally:
        ops, OPENED = OPENED, None
    names = sorted(observe.ck(e.get_name()) for e in fl.get_all_report_elements())
    must_equal("discovery:elements", names, sorted("{urn:n%d}E%d" % (i, i) for i in want if g["docs"][i]["kind"] == "s"), str(g["entry"]) + str([(x["path"], x["edges"]) for x in g["docs"]]))
    inside = [p for p, m in ops if p.startswith(d + os.sep)]
    must_equal("discovery:documents-read", sorted(set(inside)), sorted({os.path.join(d, g["docs"][i]["path"]) for i in want} | {os.path.join(d, g["inst"])}))
    w = [p for p, m in ops if isinstance(m, str) and any(c in m for c in "wax+") and p.startswith(d + os.sep)]
    if w:
        raise Violation("discovery:writes", w)
    if fl.has_any_errors():
        raise Violation("discovery:errors", observe.obs_errors(fl))
    cyc = sum(i in {j for _, j in g["docs"][i]["edges"]} for i in want)
    return Obs(key_of(g), len(want) > 1, documents=len(want), unreachable=len(g["docs"]) - len(want), reads=len(inside), self_references=cyc)


def gen_case(r):
    g = gen_graph(r)
    g["relative"] = r.random() < 0.2
    return g


SPEC = dict(
    rule="random reference graphs (cycles, self references, several directories, equal base names, unreachable and commented-out documents) over schemas and link bases, with an audit hook recording every file opened; non-trivial when at least two documents besides the instance are reachable",
    assumptions=["every referenced document exists", "references are relative paths or absolute file paths"],
    minimum={"documents": 1000, "unreachable": 300},
    probes=[Probe("graph", 5000, 50000, gen_case, run)])
