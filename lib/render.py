"""spec -> {relative path: bytes}.  Written against the XBRL 2.1 / dimensions 1.0 syntax, not against brel."""
import posixpath
import random
import zlib
from collections import Counter
from urllib.parse import quote
from xml.sax.saxutils import escape

XBRLI = "http://www.xbrl.org/2003/instance"
LINK = "http://www.xbrl.org/2003/linkbase"
XLINK = "http://www.w3.org/1999/xlink"
XS = "http://www.w3.org/2001/XMLSchema"
XBRLDT = "http://xbrl.org/2005/xbrldt"
XBRLDI = "http://xbrl.org/2006/xbrldi"
XSI = "http://www.w3.org/2001/XMLSchema-instance"
ISO = "http://www.xbrl.org/2003/iso4217"
REF = "http://www.xbrl.org/2004/ref"
TYPES = "http://www.xbrl.org/dtr/type/numeric"
DTR = "http://www.xbrl.org/dtr/type/non-numeric"


def qa(s):
    return '"' + escape(s, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;"}) + '"'


def tx(s):
    return escape(s).replace("\r", "&#13;")


class St:
    """rendering style; every combination denotes the same report"""
    def __init__(self, d=None):
        d = d or {}
        self.seed = d.get("seed", 0)
        self.r = random.Random(self.seed)
        self.comments = d.get("comments", 0.0)      # probability of a comment/PI between elements
        self.shuffle_attrs = d.get("shuffle_attrs", False)
        self.indent = d.get("indent", "  ")
        self.nl = d.get("nl", "\n")
        self.inst_prefix = d.get("inst_prefix", {})  # schema index -> prefix used in the instance
        self.xbrli = d.get("xbrli", "xbrli")         # prefix of the instance namespace in the instance; "" = default namespace
        self.link = d.get("link", "link")            # prefix of the linkbase namespace in schemas and linkbases
        self.xlink = d.get("xlink", "xlink")
        self.local_ns = d.get("local_ns", False)     # declare fact namespaces on each fact rather than the root
        self.fact_order = d.get("fact_order", None)
        self.ctx_last = d.get("ctx_last", False)
        self.link_order = d.get("link_order", None)
        self.encoding = d.get("encoding", "utf-8")
        self.decl = d.get("decl", True)
        self.ref_order = d.get("ref_order", None)    # permutation seed of schemaRef/linkbaseRef
        self.lb_from_instance = d.get("lb_from_instance", False)  # linkbaseRefs in the instance
        self.charrefs = d.get("charrefs", False)
        self.cdata = d.get("cdata", False)
        self.leaf_locs = d.get("leaf_locs", False)
        self.share_locs = d.get("share_locs", False)
        self.loc_prefix = d.get("loc_prefix", "loc_")
        self.abs_prefix = d.get("abs_prefix", "")    # e.g. http://host/dir/ for schemaRefs
        self.inner_comments = d.get("inner_comments", False)
        self.xbrldi = d.get("xbrldi", "xbrldi")      # prefix of the dimension instance namespace
        self.xs = d.get("xs", "xs")                  # prefix of the XML Schema namespace in schemas
        self.xs2 = d.get("xs2") if self.xs else None # another one in every other schema
        self.decoy = d.get("decoy", False)           # the conventional prefixes that are not used stand for something else
        self.embed = d.get("embed")                  # linkbases within the schemas that would refer to them: "all" or "some"
        self.used = d.get("used", 0)                 # more and other kinds of links in role types; 2: prefixes declared where they are used
        self.sx = d.get("sx", ["xbrli", "xbrldt", "dtr"])  # prefixes of the instance, dimension and type namespaces in schemas (xbrli itself stays declared: types are reported as written)
        self.ws = d.get("ws", False)                 # white space around dates, names and identifiers
        self.lang_from = d.get("lang_from")          # "link" or "base": where the commonest language of labels is said
        self.lang = None
        self.rebind = d.get("rebind", False)         # the instance's root binds the prefixes of names to something else than contexts, units and facts do
        self.frag = d.get("frag", "id")              # how ids are written in references: "id", "quote", "percent", "element", "mixed"
        self.dflt = d.get("dflt") if self.xbrli and not self.rebind else None      # the schema whose namespace is the default one in the instance
        self.noise = d.get("noise", False)           # types, groups, documentation and attributes that say nothing about reports
        self.tuples = d.get("tuples", False)         # facts within tuples
        self.share_labels = d.get("share_labels", False)  # one arc to all the label resources of an element

    def pre(self, P, si):
        """what stands before a name of a schema in the instance"""
        return "" if self.dflt == si else P(si) + ":"

    def decoys(self, **used):
        return [("xmlns:" + k, "urn:decoy:" + k) for k, v in used.items() if v != k] if self.decoy else []

    def fragment(self, id):
        how = self.frag if self.frag != "mixed" else ["id", "quote", "percent", "element"][zlib.crc32(id.encode()) % 4]
        if how == "id":
            return id
        if how == "element":
            return f"element({id})"
        q = quote(id, safe="")
        return q if how == "quote" else "".join("%%%02X" % ord(c) if c in "._-aeC1" else c for c in id) if id.isascii() else q

    def el(self, tag, attrs=(), body=None, depth=1):
        attrs = [(k, v) for k, v in attrs if v is not None]
        if self.shuffle_attrs:
            attrs = list(attrs)
            self.r.shuffle(attrs)
        a = "".join(f" {k}={qa(v)}" for k, v in attrs)
        s = self.nl + self.indent * depth
        pre = s
        if self.comments and self.r.random() < self.comments:
            pre += self.r.choice(["<!-- a comment <link:loc xlink:href='nope-missing.xsd#x'/> -->", "<!---->", "<?pi data?>", "<!-- contextRef -->"]) + s
        if body is None:
            return pre + f"<{tag}{a}/>"
        return pre + f"<{tag}{a}>{body}</{tag}>"

    def tok(self, t):
        return self.r.choice(["", " ", "\n   ", "\t"]) + t + self.r.choice(["", " ", "\n   "]) if self.ws else t

    def toka(self, t):
        return self.r.choice(["", " ", "  ", "\n "]) + t + self.r.choice(["", " ", "\n"]) if self.ws and self.r.random() < 0.3 else t

    def text(self, t):
        if self.cdata and t and "]]>" not in t and self.r.random() < 0.4:
            return "<![CDATA[" + t + "]]>"
        if self.charrefs:
            return "".join(f"&#{ord(c)};" if self.r.random() < 0.2 and c not in "\n\t" else tx(c) for c in t).replace("]]>", "]]&gt;")
        return tx(t)

    def doc(self, s):
        d = ""
        if self.decl:
            d = f'<?xml version="1.0" encoding="{self.encoding.replace('-sig', '')}"?>\n'
        return (d + s + "\n").encode(self.encoding, "xmlcharrefreplace")


def rel(target, frm):
    return posixpath.relpath(target, posixpath.dirname(frm) or ".")


def render_schema(sp, si, st, lb_refs, imports, inside=()):
    sc = sp["schemas"][si]
    E = sp["elements"]
    lp = st.link + ":" if st.link else ""
    xl = st.xlink
    b = ""
    app = ""
    sx, st_, sd = st.sx
    xs = st.xs2 if st.xs2 and si % 2 else st.xs
    X = xs + ":" if xs else ""
    for role in sp["roles"]:
        if role["s"] != si:
            continue
        used = [k for k in ("presentation", "calculation", "definition")]
        inner = ""
        if role["def"] is not None:
            inner += st.el(lp + "definition", [], st.text(role["def"]), 4)
        if st.used:
            used = used + random.Random(st.seed + len(app)).sample(["label", "reference", "footnote"], 2)
            random.Random(st.seed + len(app)).shuffle(used)
        for n, u in enumerate(used):
            own = st.used == 2 and (n + len(app)) % 3 != 1
            inner += st.el(lp + "usedOn", [("xmlns:uo", LINK)] if own else [], st.tok(f"{'uo:' if own else lp}{u}Link"), 4)
        app += st.el(lp + "roleType", [("id", role["id"]), ("roleURI", role["uri"])], inner, 3)
    for lb, kind in lb_refs:
        app += st.el(lp + "linkbaseRef", [(f"{xl}:type", "simple"), (f"{xl}:href", st.toka(rel(lb, sc["file"]))),
                                          (f"{xl}:arcrole", "http://www.w3.org/1999/xlink/properties/linkbase"),
                                          (f"{xl}:role", f"http://www.xbrl.org/2003/role/{kind}LinkbaseRef")], None, 3)
    app += "".join(inside)
    if app:
        b += st.el(X + "annotation", [], st.el(X + "appinfo", [], app, 2), 1)
    for j in imports:
        o = sp["schemas"][j]
        b += st.el(X + "import", [("namespace", o["ns"]), ("schemaLocation", rel(o["file"], sc["file"]))], None, 1)
    for i in sp["el_order"]:
        e = E[i]
        if e["s"] != si:
            continue
        k = e["kind"]
        A = [("name", e["name"]), ("id", e["id"])]
        if k == "typedomain":
            if e.get("inline"):
                b += st.el(X + "element", A, f'<{X}simpleType><{X}restriction base="{X}{e["domtype"]}"/></{X}simpleType>', 1)
                continue
            A += [("type", X + e["domtype"])]
        elif k == "concept":
            A += [("type", "xbrli:" + e["type"]), ("substitutionGroup", sx + ":item"), (sx + ":periodType", e["period"]),
                  (sx + ":balance", e["balance"]), ("nillable", e["nillable"]), ("abstract", e["abstract"])]
        elif k == "member":
            A += [("type", sd + ":domainItemType"), ("substitutionGroup", sx + ":item"), ("abstract", e.get("abs", "true")),
                  (sx + ":periodType", "duration"), ("nillable", "true")]
        else:
            sg = {"hypercube": st_ + ":hypercubeItem", "dimension": st_ + ":dimensionItem", "typeddim": st_ + ":dimensionItem"}.get(k, sx + ":item")
            A += [("type", "xbrli:stringItemType"), ("substitutionGroup", sg), ("abstract", e.get("abs", "true")), (sx + ":periodType", "duration"), ("nillable", "true")]
            if k == "typeddim":
                d = E[e["domain"]]
                A.append((st_ + ":typedDomainRef", ("" if d["s"] == si else rel(sp["schemas"][d["s"]]["file"], sc["file"])) + "#" + st.fragment(d["id"])))
        b += st.el(X + "element", A, None, 1)
    if st.noise:
        T = sc.get("own_prefix", sc["prefix"])
        some = [i for i in sp["el_order"] if E[i]["s"] == si and E[i]["kind"] == "concept"]
        ref = f'<{X}element ref="{T}:{E[some[0]]["name"]}" minOccurs="0"/>' if some else ""
        b += (f'<{X}simpleType name="colourType"><{X}restriction base="{X}string"><{X}enumeration value="red"/></{X}restriction></{X}simpleType>'
              f'<{X}complexType name="pairType"><{X}sequence>{ref}<{X}element name="inner" type="{X}string"/></{X}sequence><{X}attribute name="a" type="{X}string"/></{X}complexType>'
              f'<{X}group name="g1"><{X}choice>{ref}<{X}element name="inner2" type="{X}string"/></{X}choice></{X}group>'
              f'<{X}attributeGroup name="ag"><{X}attribute name="b" type="{X}string"/></{X}attributeGroup><{X}attribute name="c" type="{X}string"/>'
              f'<{X}annotation id="late"><{X}documentation xml:lang="en">An element: &lt;xs:element name="decoy"/&gt;</{X}documentation></{X}annotation>')
    if st.tuples and si == 0:
        b += st.el(X + "element", [("name", "TupleOfAll"), ("id", "tuple_of_all"), ("substitutionGroup", sx + ":tuple"), ("nillable", "true")],
                   f'<{X}complexType><{X}complexContent><{X}restriction base="{X}anyType"><{X}sequence><{X}any minOccurs="0" maxOccurs="unbounded"/></{X}sequence><{X}attribute name="id" type="{X}ID"/></{X}restriction></{X}complexContent></{X}complexType>', 1)
    nsd = [("xmlns" + (":" + xs if xs else ""), XS), ("xmlns:xbrli", XBRLI), ("xmlns" + (":" + st.link if st.link else ""), LINK), (f"xmlns:{xl}", XLINK),
           ("xmlns:" + st_, XBRLDT), ("xmlns:" + sd, DTR), ("xmlns:" + sc.get("own_prefix", sc["prefix"]), sc["ns"]), ("targetNamespace", sc["ns"]), ("elementFormDefault", "qualified")]
    if xs != st.xs:
        nsd.append(("xmlns:" + st.xs, "urn:not:a:schema"))
    if sx != "xbrli":
        nsd.append(("xmlns:" + sx, XBRLI))
    nsd += st.decoys(link=st.link, xlink=xl, xbrldt=st_)
    return st.doc(f"<{X}schema" + "".join(f" {k}={qa(v)}" for k, v in nsd) + ">" + b + st.nl + f"</{X}schema>")


def href(sp, ei, frm, st):
    e = sp["elements"][ei]
    return rel(sp["schemas"][e["s"]]["file"], frm) + "#" + st.fragment(e["id"])


def render_link(sp, l, st):
    lp = st.link + ":" if st.link else ""
    xl = st.xlink
    kind = l["kind"]
    b = []
    T = lambda t: (f"{xl}:type", t)
    role = sp["roles"][l["role"]]["uri"] if l["role"] is not None else "http://www.xbrl.org/2003/role/link"
    locs = []
    arcs = []
    lab = lambda i: f"{st.loc_prefix}{i}"

    def loc(i, label=None):
        locs.append(st.el(lp + "loc", [T("locator"), (f"{xl}:href", st.toka(href(sp, i, l["file"], st))), (f"{xl}:label", label or lab(i))], None, 2))

    if "arcs" in l:
        seen = []
        parents = {a["p"] for a in l["arcs"]}
        cnt = {}
        pairs = set()
        # one arc leads to all locators of a label: siblings without arcs of their own whose arcs say the same can share one
        incoming = Counter(a["c"] for a in l["arcs"])
        group_of, groups = {}, {}
        if st.share_locs:
            for a in l["arcs"]:
                if incoming[a["c"]] == 1 and a["c"] not in parents:
                    groups.setdefault((a["p"],) + tuple(sorted((k, repr(v)) for k, v in a.items() if k not in ("p", "c"))), []).append(a["c"])
            group_of = {c: g for g in groups.values() if len(g) > 1 for c in g}
        for a in l["arcs"]:
            to = lab(a["c"])
            if a["c"] in group_of:
                g = group_of[a["c"]]
                to = lab(g[0]) + "_g"
                loc(a["c"], to)
                if a["p"] not in seen:
                    seen.append(a["p"])
                    loc(a["p"])
                if a["c"] != g[0]:
                    continue
                arcs.append(st.el(lp + kind + "Arc", [T("arc"), (f"{xl}:arcrole", a["arcrole"]), (f"{xl}:from", lab(a["p"])), (f"{xl}:to", to),
                                                      ("order", a["order"]), ("preferredLabel", a.get("pref")), ("weight", a.get("weight")), ("use", a.get("use") or ("optional" if st.noise else None)), ("priority", "0" if st.noise else None), (f"{xl}:title", "an arc" if st.noise else None), (f"{xl}:actuate", "onRequest" if st.noise else None), ("id", f"arc{len(arcs)}" if st.noise else None)], None, 2))
                continue
            if a["p"] not in seen:
                seen.append(a["p"])
                loc(a["p"])
            if st.leaf_locs and (a["c"] not in parents or st.leaf_locs == "all"):
                cnt[a["c"]] = cnt.get(a["c"], 0) + 1
                to = lab(a["c"]) + "_%d" % cnt[a["c"]]
                loc(a["c"], to)
            elif (a["p"], a["c"], a["arcrole"]) in pairs:
                # two arcs between the same locators would be one relationship said twice
                cnt[a["c"]] = cnt.get(a["c"], 0) + 1
                to = lab(a["c"]) + "_r%d" % cnt[a["c"]]
                loc(a["c"], to)
            elif a["c"] not in seen:
                seen.append(a["c"])
                loc(a["c"])
            pairs.add((a["p"], a["c"], a["arcrole"]))
            arcs.append(st.el(lp + kind + "Arc", [T("arc"), (f"{xl}:arcrole", a["arcrole"]), (f"{xl}:from", lab(a["p"])), (f"{xl}:to", to),
                                                  ("order", a["order"]), ("preferredLabel", a.get("pref")), ("weight", a.get("weight")), ("use", a.get("use") or ("optional" if st.noise else None)), ("priority", "0" if st.noise else None), (f"{xl}:title", "an arc" if st.noise else None), (f"{xl}:actuate", "onRequest" if st.noise else None), ("id", f"arc{len(arcs)}" if st.noise else None)], None, 2))
        b = locs + arcs
        if st.comments or st.shuffle_attrs:
            st.r.shuffle(b)
    elif kind == "label":
        lang = st.lang
        if st.lang_from == "link":
            lang = Counter(x["lang"] for x in l["labels"]).most_common(1)[0][0]
        seen = set()
        arced = set()
        for k, x in enumerate(l["labels"]):
            if x["el"] not in seen:
                seen.add(x["el"])
                loc(x["el"])
            first = x["el"] not in arced
            arced.add(x["el"])
            res = f"lab_e{x['el']}" if st.share_labels else f"lab_{k}"
            arcs.append(st.el(lp + "label", [T("resource"), (f"{xl}:label", res), (f"{xl}:role", x["role"]), ("xml:lang", x["lang"] if x["lang"] != lang else None),
                                             ("id", x.get("id"))] + ([(f"{xl}:title", "a title"), ("lang", "xx")] if st.noise else []), st.text(x["text"]), 2))
            if first or not st.share_labels:
                arcs.append(st.el(lp + "labelArc", [T("arc"), (f"{xl}:arcrole", "http://www.xbrl.org/2003/arcrole/concept-label"), (f"{xl}:from", lab(x["el"])), (f"{xl}:to", res)], None, 2))
        b = locs + arcs
    elif kind == "reference":
        seen = set()
        for k, x in enumerate(l["refs"]):
            if x["el"] not in seen:
                seen.add(x["el"])
                loc(x["el"])
            body = "".join(st.el("ref:" + a, [], st.text(v), 3) for a, v in x["parts"])
            arcs.append(st.el(lp + "reference", [T("resource"), (f"{xl}:label", f"ref_{k}"), (f"{xl}:role", x["role"])], body, 2))
            arcs.append(st.el(lp + "referenceArc", [T("arc"), (f"{xl}:arcrole", "http://www.xbrl.org/2003/arcrole/concept-reference"), (f"{xl}:from", lab(x["el"])), (f"{xl}:to", f"ref_{k}")], None, 2))
        b = locs + arcs
    if st.noise:
        b = [st.el(lp + "documentation", [("id", "docu")], "<!-- x -->nothing that counts", 2)] + b
    return st.el(lp + kind + "Link", [T("extended"), (f"{xl}:role", role)] + ([(f"{xl}:title", "Title"), ("id", "link7")] if st.noise else []) + ([("xml:lang", lang)] if kind == "label" and st.lang_from == "link" else []), "".join(b) + st.nl + st.indent, 1)


def render_linkbase(sp, fn, links, st, embedded=False):
    lp = st.link + ":" if st.link else ""
    xl = st.xlink
    b = ""
    roles = []
    for l in links:
        if l["role"] is not None and l["role"] not in roles:
            roles.append(l["role"])
    for ri in roles:
        ro = sp["roles"][ri]
        b += st.el(lp + "roleRef", [(f"{xl}:type", "simple"), ("roleURI", ro["uri"]),
                                    (f"{xl}:href", rel(sp["schemas"][ro["s"]]["file"], fn) + "#" + ro["id"])], None, 1)
    if st.noise:
        b = st.el(lp + "documentation", [], "said before everything else", 1) + b
        L0 = ' %s:type="locator" %s:href="%s#%s" %s:label="g"' % (xl, xl, rel(sp["schemas"][sp["elements"][0]["s"]]["file"], fn), sp["elements"][0]["id"], xl)
        b += (f'<gen:link xmlns:gen="http://xbrl.org/2008/generic" xmlns:label="http://xbrl.org/2008/label" xmlns:table="http://xbrl.org/2014/table" {xl}:type="extended" {xl}:role="http://www.xbrl.org/2008/role/link">'
              f'<{lp}loc{L0}/><label:label {xl}:type="resource" {xl}:label="gl" {xl}:role="http://www.xbrl.org/2008/role/label" xml:lang="en">a generic label</label:label>'
              f'<table:table {xl}:type="resource" {xl}:label="tb" id="tb1"/>'
              f'<gen:arc {xl}:type="arc" {xl}:arcrole="http://xbrl.org/arcrole/2008/element-label" {xl}:from="g" {xl}:to="gl"/></gen:link>')
    langs = Counter(x["lang"] for l in links for x in l.get("labels", []))
    st.lang = langs.most_common(1)[0][0] if langs and st.lang_from == "base" else None
    for l in links:
        b += render_link(sp, l, st)
    nsd = [("xmlns" + (":" + st.link if st.link else ""), LINK), (f"xmlns:{xl}", XLINK), ("xmlns:ref", REF)] + ([("xml:lang", st.lang)] if st.lang else [])
    nsd += st.decoys(link=st.link, xlink=xl, xbrli="", xs="", xsi="")
    s = f"<{lp}linkbase" + "".join(f" {k}={qa(v)}" for k, v in nsd) + ">" + b + st.nl + f"</{lp}linkbase>"
    return s if embedded else st.doc(s)


def split_text(st, t):
    """same text, possibly interrupted by a comment (the character content is unchanged)"""
    if st.inner_comments and len(t) > 1 and st.r.random() < 0.5:
        k = st.r.randint(0, len(t))
        return st.text(t[:k]) + "<!-- in -->" + st.text(t[k:])
    return st.text(t)


def rebound(sp, st, P):
    """declarations of the prefixes that the root binds to something else"""
    return [("xmlns:" + P(si), sc["ns"]) for si, sc in enumerate(sp["schemas"])] + [("xmlns:iso4217", ISO)] if st.rebind else []


def render_context(sp, c, st, P, fn=None):
    x = st.xbrli + ":" if st.xbrli else ""
    E = sp["elements"]
    q = lambda i: st.pre(P, E[i]["s"]) + E[i]["name"]
    seg = sce = ""
    for d in c["dims"]:
        if "mem" in d:
            s = st.el(st.xbrldi + ":explicitMember", [("dimension", st.toka(q(d["dim"])))], st.tok(q(d["mem"])), 4)
        else:
            dom = E[E[d["dim"]]["domain"]]
            dq = st.pre(P, dom["s"]) + dom["name"]
            s = st.el(st.xbrldi + ":typedMember", [("dimension", st.toka(q(d["dim"])))], f"<{dq}>{st.text(d['val'])}</{dq}>", 4)
        if d["in"] == "segment":
            seg += s
        else:
            sce += s
    ent = st.el(x + "identifier", [("scheme", c["scheme"])], st.tok(st.text(c["entity"])), 3)
    if seg:
        ent += st.el(x + "segment", [], seg, 3)
    b = st.el(x + "entity", [], ent, 2)
    p = c["period"]
    if p == "forever":
        pb = st.el(x + "forever", [], None, 3)
    elif len(p) == 1:
        pb = st.el(x + "instant", [], st.tok(p[0]), 3)
    else:
        pb = st.el(x + "startDate", [], st.tok(p[0]), 3) + st.el(x + "endDate", [], st.tok(p[1]), 3)
    b += st.el(x + "period", [], pb, 2)
    if sce:
        b += st.el(x + "scenario", [], sce, 2)
    return st.el(x + "context", rebound(sp, st, P) + [("id", c["id"])], b, 1)


def render_unit(sp, u, st, P):
    x = st.xbrli + ":" if st.xbrli else ""

    def m(t):
        p, n = t
        pp = st.pre(P, p) if isinstance(p, int) else ((st.xbrli or "xbrli") if p == "xbrli" else p) + ":"
        return st.el(x + "measure", [], st.tok(pp + n), 3)
    if u["den"]:
        b = st.el(x + "divide", [], st.el(x + "unitNumerator", [], "".join(map(m, u["num"])), 3) + st.el(x + "unitDenominator", [], "".join(map(m, u["den"])), 3), 2)
    else:
        b = "".join(map(m, u["num"]))
    return st.el(x + "unit", rebound(sp, st, P) + [("id", u["id"])], b, 1)


def render_instance(sp, st, files):
    fn = sp["inst"]
    x = st.xbrli + ":" if st.xbrli else ""
    E = sp["elements"]
    P = lambda si: st.inst_prefix.get(str(si), st.inst_prefix.get(si, sp["schemas"][si]["prefix"]))
    xl = st.xlink
    b = ""
    refs = []
    for si, sc in enumerate(sp["schemas"]):
        if sp.get("schema_refs") is not None and si not in sp["schema_refs"]:
            continue
        refs.append(st.el("link:schemaRef", [(f"{xl}:type", "simple"), (f"{xl}:href", st.toka(st.abs_prefix + rel(sc["file"], fn)))], None, 1))
    if st.lb_from_instance:
        for lb in files["linkbases"]:
            refs.append(st.el("link:linkbaseRef", [(f"{xl}:type", "simple"), (f"{xl}:href", st.toka(st.abs_prefix + rel(lb, fn))),
                                                   (f"{xl}:arcrole", "http://www.w3.org/1999/xlink/properties/linkbase")], None, 1))
    if st.ref_order is not None:
        random.Random(st.ref_order).shuffle(refs)
    b += "".join(refs)
    cu = "".join(render_context(sp, c, st, P) for c in sp["contexts"]) + "".join(render_unit(sp, u, st, P) for u in sp["units"])
    facts = []
    order = list(range(len(sp["facts"])))
    if st.fact_order is not None:
        random.Random(st.fact_order).shuffle(order)
    for k in order:
        f = sp["facts"][k]
        e = E[f["c"]]
        A = []
        if st.rebind:
            A += rebound(sp, st, P)
        elif st.local_ns:
            A.append(("xmlns:" + P(e["s"]), sp["schemas"][e["s"]]["ns"]))
        A += [("id", f["id"]), ("contextRef", sp["contexts"][f["ctx"]]["id"]),
              ("unitRef", sp["units"][f["unit"]]["id"] if f["unit"] is not None else None),
              ("decimals", f["decimals"]), ("precision", f["precision"]), ("xsi:nil", "true" if f["nil"] else None)]
        body = None if f["nil"] else split_text(st, f["value"])
        if st.local_ns:
            # attributes keep the declaration first; shuffling is harmless in XML
            pass
        facts.append(st.el(st.pre(P, e["s"]) + e["name"], A, body, 1))
    if st.tuples:
        rt = random.Random(st.seed)
        tup = st.pre(P, 0) + "TupleOfAll"
        while len(facts) > 1 and rt.random() < 0.8:     # nested ones too
            a = rt.randrange(len(facts))
            z = rt.randint(a + 1, len(facts))
            facts[a:z] = [st.el(tup, rebound(sp, st, P) + [("id", f"tup{len(facts)}" if rt.random() < 0.5 else None)], "".join(facts[a:z]), 1)]
    b += ("".join(facts) + cu) if st.ctx_last else (cu + "".join(facts))
    for fl in sp["footlinks"]:
        inner = ""
        seen = set()
        for k, nt in enumerate(fl["notes"]):
            for fi in nt["facts"]:
                if fi not in seen:
                    seen.add(fi)
                    inner += st.el("link:loc", [(f"{xl}:type", "locator"), (f"{xl}:href", st.toka("#" + st.fragment(sp["facts"][fi]["id"]))), (f"{xl}:label", f"fl_{fi}")], None, 2)
                inner += st.el("link:footnoteArc", [(f"{xl}:type", "arc"), (f"{xl}:arcrole", "http://www.xbrl.org/2003/arcrole/fact-footnote"),
                                                    (f"{xl}:from", f"fl_{fi}"), (f"{xl}:to", f"fn_{k}"), ("order", nt["order"])], None, 2)
            inner += st.el("link:footnote", [(f"{xl}:type", "resource"), (f"{xl}:label", f"fn_{k}"), (f"{xl}:role", "http://www.xbrl.org/2003/role/footnote"),
                                             ("xml:lang", nt["lang"])], st.text(nt["text"]), 2)
        b += st.el("link:footnoteLink", [(f"{xl}:type", "extended"), (f"{xl}:role", fl["role"])], inner, 1)
    nsd = [("xmlns" + (":" + st.xbrli if st.xbrli else ""), XBRLI), ("xmlns:link", LINK), (f"xmlns:{xl}", XLINK), ("xmlns:" + st.xbrldi, XBRLDI), ("xmlns:iso4217", "http://decoy.invalid/money" if st.rebind else ISO), ("xmlns:xsi", XSI)]
    if not st.xbrli:
        nsd.append(("xmlns:xbrli", XBRLI))
    for si, sc in enumerate(sp["schemas"]):
        if st.dflt == si:
            nsd.append(("xmlns", sc["ns"]))
        # the dimension values are QNames in content, so the prefixes stay declared on the root
        nsd.append(("xmlns:" + P(si), "http://decoy.invalid/ns" if st.rebind else sc["ns"]))
    nsd += st.decoys(xbrli=st.xbrli or "xbrli", xlink=xl, xbrldi=st.xbrldi, xbrldt="", xs="", ix="")
    return st.doc(f"<{x}xbrl" + "".join(f" {k}={qa(v)}" for k, v in nsd) + ">" + b + st.nl + f"</{x}xbrl>")


def linkbase_files(sp):
    files = []
    for l in sp["links"]:
        if l["file"] not in files:
            files.append(l["file"])
    return files


def render_taxonomy(sp, st):
    out = {}
    lbs = linkbase_files(sp)
    order = list(range(len(sp["links"])))
    if st.link_order is not None:
        random.Random(st.link_order).shuffle(order)
    refs, inside = {}, {}
    for i, lb in enumerate(list(lbs)):
        links, si = [sp["links"][j] for j in order if sp["links"][j]["file"] == lb], (i + sp["seed"]) % len(sp["schemas"])
        if st.embed == "all" or st.embed and (i + st.seed) % 2:
            fn = sp["schemas"][si]["file"]
            inside.setdefault(si, []).append(render_linkbase(sp, fn, [dict(l, file=fn) for l in links], st, True))
            lbs.remove(lb)
            continue
        out[lb] = render_linkbase(sp, lb, links, st)
        kinds = {l["kind"] for l in sp["links"] if l["file"] == lb}
        refs.setdefault(si, []).append((lb, sorted(kinds)[0]))
    imports = sp.get("imports") or {}
    for si, sc in enumerate(sp["schemas"]):
        r = [] if st.lb_from_instance else list(refs.get(si, []))
        if st.ref_order is not None:
            random.Random(st.ref_order).shuffle(r)
        imp = imports.get(str(si), imports.get(si, [j for j in range(len(sp["schemas"])) if j != si]))
        out[sc["file"]] = render_schema(sp, si, st, r, imp, inside.get(si, ()))
    return out, lbs


def render(sp, style=None):
    st = style if isinstance(style, St) else St(style)
    out, lbs = render_taxonomy(sp, st)
    out[sp["inst"]] = render_instance(sp, st, {"linkbases": lbs})
    return out


def write(files, d):
    import os
    for fn, data in files.items():
        p = os.path.join(d, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
