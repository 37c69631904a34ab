"""Footnotes of inline and XML reports are attached to the facts they explain."""
import random
from html import escape

import ixdoc
from brel.networks import FootnoteNetwork
from ix import XHTML
from lxml import etree

from common import *

LINK0 = "http://www.xbrl.org/2003/role/link"
ARC0 = "http://www.xbrl.org/2003/arcrole/fact-footnote"
EXPL = "http://www.xbrl.org/2009/arcrole/fact-explanatoryFact"
ROLE0 = "http://www.xbrl.org/2003/role/footnote"
ROLES = ["http://e.org/role/a", "http://e.org/role/b", "http://e.org/role/a/", "http://e.org/role/A", "http://e.org/role/a#1"]
WORDS = ["See note", "restated", "&", "a < b", "Anhang für", "注記", "5 %", '"x"', "unaudited"]
XBRL = ('<?xml version="1.0" encoding="UTF-8"?>\n<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
        'xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:d="' + ixdoc.NS + '"%s><link:schemaRef xlink:type="simple" xlink:href="s.xsd"/>')


def make(p):
    r = random.Random(p["s"])
    facts = [f"f{i}" for i in range(r.randint(1, 8))]
    text = lambda: " ".join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
    notes = []
    for i in range(r.randint(1, 6)):
        parts = [[text()] for _ in range(r.choice([1, 1, 1, 2, 3]) if p["how"] == "inline" else 1)]
        if p["how"] == "inline":
            parts = [[x for x in [text(), (r.choice(["b", "span", "p"]), text()), text()] if r.random() < 0.7] or ["n"] for _ in parts]
        notes.append({"id": f"fn{i}", "role": r.choice([None, None, ROLE0, "http://e.org/role/fine-print"]), "lang": r.choice(["en", "de", "ja", None]), "parts": parts,
                      "title": r.choice([None, None, "t1"]) if p["how"] == "inline" else None})
    rels = []
    for _ in range(r.randint(1, 6)):
        arcrole = r.choice([None, None, ARC0, "http://e.org/arcrole/other"])
        fr = r.sample(facts, r.randint(1, min(4, len(facts))))
        to = r.sample([n["id"] for n in notes], r.randint(1, min(3, len(notes))))
        if p["how"] == "inline" and r.random() < 0.2:       # one fact explains another: only from lower to higher
            arcrole = EXPL
            a = r.randrange(len(facts))
            if a + 1 < len(facts):
                fr, to = [facts[a]], r.sample(facts[a + 1:], 1)
            else:
                arcrole = None
        rels.append({"link": r.choice([None, None, LINK0, *ROLES]), "arc": arcrole, "from": fr, "to": to, "order": r.choice([None, "0", "1", "2", "1.5", "3.0", "10"])})
    # the same edge is stated once
    seen = set()
    out = []
    for rel in rels:
        es = {(rel["link"] or LINK0, rel["arc"] or ARC0, a, b) for a in rel["from"] for b in rel["to"]}
        if es & seen:
            continue
        seen |= es
        out.append(rel)
    return r, facts, notes, out


def note_text(n):
    return "".join(x if isinstance(x, str) else x[1] for part in n["parts"] for x in part)


def write_inline(d, p, r, facts, notes, rels):
    body = []
    for f in facts:
        body.append(f'<p><ix:nonFraction id="{f}" contextRef="c" unitRef="u" decimals="0" name="d:Num" format="ixt:num-dot-decimal">1{f[1:]}</ix:nonFraction> EUR</p>')
    for n in notes:
        x = ["".join(escape(y) if isinstance(y, str) else f"<{y[0]}>{escape(y[1])}</{y[0]}>" for y in part) for part in n["parts"]]
        ids = [f"{n['id']}c{i}" for i in range(len(x) - 1)]
        A = f' id="{n["id"]}"' + (f' footnoteRole="{n["role"]}"' if n["role"] else "") + (f' xml:lang="{n["lang"]}"' if n["lang"] else "") + (f' title="{n["title"]}"' if n["title"] else "")
        body.append(f'<p>* <ix:footnote{A}' + (f' continuedAt="{ids[0]}"' if ids else "") + f">{x[0]}</ix:footnote> after</p>")
        for i, c in enumerate(ids):
            body.append(f'<div><ix:continuation id="{c}"' + (f' continuedAt="{ids[i + 1]}"' if i + 1 < len(ids) else "") + f">{x[i + 1]}</ix:continuation> after</div>")
    if p["shuffle"]:
        r.shuffle(body)
    res = ""
    for role in ROLES:
        if any(x["link"] == role for x in rels):
            res += f'<link:roleRef roleURI="{role}" xlink:type="simple" xlink:href="s.xsd#r"/>'
    for x in rels:
        res += (f'<ix:relationship fromRefs="{" ".join(x["from"])}" toRefs="{" ".join(x["to"])}"' + (f' linkRole="{x["link"]}"' if x["link"] else "")
                + (f' arcrole="{x["arc"]}"' if x["arc"] else "") + (f' order="{x["order"]}"' if x["order"] else "") + "/>")
    path = ixdoc.write(d, "".join(body), resources=res, first=p["first"])
    s = open(path, encoding="utf-8").read().replace("<html xmlns=", '<html xml:lang="fr" xmlns=', 1)
    open(path, "w", encoding="utf-8").write(s)
    return path


def write_xml(d, p, r, facts, notes, rels):
    ixdoc.write(d, "")
    s = XBRL % ' xml:lang="fr"'
    s += ('<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s.org">E</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>'
          '<xbrli:unit id="u"><xbrli:measure>iso4217:EUR</xbrli:measure></xbrli:unit>')
    fx = "".join(f'<d:Num id="{f}" contextRef="c" unitRef="u" decimals="0">1{f[1:]}</d:Num>' for f in facts)
    N = {n["id"]: n for n in notes}
    links = ""
    by = {}
    for x in rels:
        by.setdefault(x["link"] or LINK0, []).append(x)
    for role, xs in by.items():
        used = list(dict.fromkeys(b for x in xs for b in x["to"]))
        locs = list(dict.fromkeys(a for x in xs for a in x["from"]))
        inner = [f'<link:loc xlink:type="locator" xlink:href="#{a}" xlink:label="l_{a}"/>' for a in locs]
        for b in used:
            n = N[b]
            inner.append(f'<link:footnote xlink:type="resource" xlink:label="n_{b}" xlink:role="{n["role"] or ROLE0}"' + (f' xml:lang="{n["lang"]}"' if n["lang"] else "") + f'>{escape(note_text(n))}</link:footnote>')
        for x in xs:
            for a in x["from"]:
                for b in x["to"]:
                    inner.append(f'<link:footnoteArc xlink:type="arc" xlink:arcrole="{x["arc"] or ARC0}" xlink:from="l_{a}" xlink:to="n_{b}"' + (f' order="{x["order"]}"' if x["order"] else "") + "/>")
        if p["shuffle"]:
            r.shuffle(inner)
        links += f'<link:footnoteLink xlink:type="extended" xlink:role="{role}">' + "".join(inner) + "</link:footnoteLink>"
    s += (fx + links if p["first"] else fx + links) + "</xbrli:xbrl>"
    path = os.path.join(d, "doc.xml")
    open(path, "w", encoding="utf-8").write(s)
    return path


def content_text(c, how):
    if how == "xml":
        return c
    e = etree.fromstring(f'<x xmlns="{XHTML}">{c}</x>')
    return "".join(e.itertext())


def run(p, env):
    r, facts, notes, rels = make(p)
    path = (write_inline if p["how"] == "inline" else write_xml)(env.dir(), p, r, facts, notes, rels)
    fl = Filing.open(path)
    N = {n["id"]: n for n in notes}
    desc = {n["id"]: (n["role"] or ROLE0, n["lang"] or "fr", note_text(n)) for n in notes}
    want, seqs = Counter(), {}
    for x in rels:
        for a in x["from"]:
            for b in x["to"]:
                lk, ar, o = x["link"] or LINK0, x["arc"] or ARC0, float(x["order"] or 1)
                t = ("fact", b) if b in facts else ("note",) + desc[b]
                want[lk, ar, a, t, o] += 1
    got = Counter()

    def node_key(n):
        if n.points_to() == "fact":
            return ("fact", n.get_fact().get_id())
        x = n.get_resource()
        return ("note", x.get_role(), x.get_language(), content_text(x.get_content(), p["how"]))

    def walk(net, n, depth=0):
        if depth > 20:
            raise Violation("footnotes:endless", "more than 20 levels")
        kids = n.get_children()
        orders = [k.get_order() for k in kids]
        if orders != sorted(orders):
            raise Violation("footnotes:order", f"children of {node_key(n)} have orders {orders}")
        for k in kids:
            got[net.get_link_role(), k.get_arc_role(), node_key(n)[1], node_key(k), k.get_order()] += 1
            if k.get_link_role() != net.get_link_role():
                raise Violation("footnotes:link-role", f"node {k.get_link_role()}, network {net.get_link_role()}")
            if not k.is_leaf():
                # a fact further down has its own edges; they are counted where it is first met
                if node_key(k) not in visited:
                    visited.add(node_key(k))
                    walk(net, k, depth + 1)

    nets = [n for n in fl.get_all_physical_networks() if isinstance(n, FootnoteNetwork)]
    for net in nets:
        visited = set()
        roots = net.get_roots()
        if any(x.points_to() != "fact" for x in roots):
            raise Violation("footnotes:root", "a root is no fact")
        for x in roots:
            walk(net, x)
    must_equal(f"footnotes:edges-{p['how']}", got, want)
    must_equal(f"footnotes:errors-{p['how']}", observe.obs_errors(fl), [])
    titles = {}
    if p["how"] == "inline":
        def tl(n):
            for k in n.get_children():
                if k.points_to() == "resource":
                    x = k.get_resource()
                    titles[x.get_id()] = x.get_title()
                tl(k)
        for net in nets:
            for x in net.get_roots():
                tl(x)
        for k, v in titles.items():
            if v != N[k]["title"]:
                raise Violation("footnotes:title", f"{k}: {v!r}, expected {N[k]['title']!r}")
    return Obs(key_of(p), bool(want), edges=sum(want.values()), inline=int(p["how"] == "inline"), chained=sum(len(n["parts"]) > 1 for n in notes), shared=sum(c > 1 for c in Counter((k[0], k[3]) for k in want).values()))


def g(r):
    return {"s": r.randrange(1 << 40), "how": r.choice(["inline", "inline", "xml"]), "first": r.random() < 0.5, "shuffle": r.random() < 0.5}


KINDS = ["from", "to", "both-from", "both-to", "no-from", "no-to", "order"]


def run_broken(p, env):
    """a wrong reference is reported and the others are kept"""
    k = p["kind"]
    rel = {"from": 'fromRefs="nix" toRefs="n"', "to": 'fromRefs="a" toRefs="nix"', "both-from": 'fromRefs="nix a" toRefs="n"', "both-to": 'fromRefs="a" toRefs="n nix"',
           "no-from": 'toRefs="n"', "no-to": 'fromRefs="a"', "order": 'fromRefs="a" toRefs="n" order="first"'}[k]
    good = '<ix:relationship fromRefs="b" toRefs="n"/>'
    res = [f"<ix:relationship {rel}/>", good]
    if p["swap"]:
        res.reverse()
    F = lambda i: f'<p><ix:nonNumeric id="{i}" contextRef="c" name="d:Text">{i}</ix:nonNumeric></p>'
    fl = Filing.open(ixdoc.write(env.dir(), F("a") + F("b") + '<p><ix:footnote id="n" xml:lang="en">note</ix:footnote></p>', resources="".join(res), first=p["first"]))
    got = set()
    for net in fl.get_all_physical_networks():
        if isinstance(net, FootnoteNetwork):
            for x in net.get_roots():
                for y in x.get_children():
                    got.add((x.get_fact().get_id(), y.get_resource().get_id()))
    want = {("b", "n")} | ({("a", "n")} if k in ("both-from", "both-to", "order") else set())
    must_equal("footnotes:broken", got, want, k)
    if not fl.get_all_errors():
        raise Violation("footnotes:broken-unreported", k)
    return Obs(key_of(p), True, broken=1)


SPEC = dict(probes=[Probe("footnotes", 4000, 60000, g, run),
                    Probe("broken", 40, 40, lambda r: {"kind": r.choice(KINDS), "swap": r.random() < 0.5, "first": r.random() < 0.5, "x": r.randrange(1 << 20)}, run_broken)],
            rule="distinct reports with footnotes",
            minimum={"edges": 15000, "inline": 2000, "chained": 2000, "shared": 2000, "broken": 30})
