"""Text of inline facts: nested markup, exclusions, continuations, escaping."""
import random
from html import escape

import ixdoc
from ix import XHTML
from lxml import etree

from common import *

WORDS = ["The Group", "revenue", "&", "<b>", "a > b", '"quoted"', "it's", "Zürich", "営業", "&amp;", "100", "%", "\u00a0", "  ", "\n", "😀", "x<y", "]]>", "-", "(1)", "&lt;p&gt;"]
TAGS = ["p", "div", "span", "b", "i", "td", "a"]


class Doc:
    """Tree nodes: str | ('el', tag, attrs, kids) | ('fact', k, kids) | ('num', k, text) | ('cont', id, kids) | ('ex', kids) | ('cm', text) | ('pi', text)"""

    def __init__(self, r, p):
        self.r, self.p = r, p
        self.facts = {}         # k -> dict(escape, chain=[cont ids])
        self.kids = {}          # fact k or cont id -> kids
        self.nums = {}
        self.pending = []       # continuations that still need a place: (chain owner, id)
        self.n = 0

    def text(self):
        r = self.r
        return r.choice(["", " "]).join(r.choice(WORDS) for _ in range(r.randint(1, 4)))

    def nodes(self, depth, owners, in_exclude=False):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.4 or depth <= 0:
                out.append(self.text())
            elif k < 0.6:
                A = {}
                if r.random() < 0.4:
                    A["class"] = self.text()
                if r.random() < 0.2:
                    A["title"] = r.choice(WORDS)
                out.append(("el", r.choice(TAGS), A, self.nodes(depth - 1, owners, in_exclude) if r.random() < 0.9 else []))
            elif k < 0.68:
                out.append(("ex", self.nodes(depth - 1, owners, True)))
            elif k < 0.73:
                out.append(r.choice([("cm", " comment "), ("pi", "target data"), ("el", "br", {}, [])]))
            elif k < 0.8:
                self.n += 1
                t = r.choice(["12", "1,200", "7.5"])
                self.nums[f"n{self.n}"] = t.replace(",", "")
                out.append(("num", f"n{self.n}", t))
            elif k < 0.9:
                # a place for a continuation of a fact that is not around this place
                c = [i for i, (o, cid) in enumerate(self.pending) if o not in owners]
                if c:
                    o, cid = self.pending.pop(r.choice(c))
                    self.kids[cid] = self.nodes(depth - 1, owners | {o}, in_exclude)
                    out.append(("cont", cid))
                else:
                    out.append(self.text())
            else:
                out.append(self.fact(depth - 1, owners))
        return out

    def fact(self, depth, owners):
        r = self.r
        self.n += 1
        k = f"f{self.n}"
        self.facts[k] = {"escape": r.choice([None, None, None, "false", "false", "0", "true", "true", "true", "1"]), "chain": []}
        if r.random() < self.p["p_cont"]:
            self.facts[k]["chain"] = [f"{k}c{i}" for i in range(r.choice([1, 1, 2, 4]))]
            self.pending += [(k, c) for c in self.facts[k]["chain"]]
        self.kids[k] = self.nodes(depth, owners | {k}) if r.random() < 0.95 else []
        return ("fact", k)

    def build(self):
        r = self.r
        body = []
        for _ in range(self.p["blocks"]):
            body.append(("el", r.choice(["p", "div"]), {}, self.nodes(self.p["depth"], frozenset())))
            if r.random() < 0.7:
                body.append(("el", "div", {}, [self.fact(self.p["depth"], frozenset())]))
        while self.pending:
            o, cid = self.pending.pop(r.randrange(len(self.pending)))
            self.kids[cid] = self.nodes(r.choice([0, 1]), frozenset([o]))
            body.insert(r.randint(0, len(body)), ("el", "div", {}, [("cont", cid)]))
        return body

    # -- markup
    def t(self, s):
        r = self.r
        if r.random() < 0.1 and "]]>" not in s and s:
            return f"<![CDATA[{s}]]>"
        return escape(s, quote=r.random() < 0.5)

    def xml(self, nodes):
        out = ""
        for n in nodes:
            if isinstance(n, str):
                out += self.t(n)
            elif n[0] == "el":
                h = self.p["h"] + n[1]
                A = "".join(f' {k}="{escape(v).replace(chr(10), "&#10;")}"' for k, v in n[2].items())
                out += f"<{h}{A}>{self.xml(n[3])}</{h}>" if n[3] or n[1] != "br" else f"<{h}{A}/>"
            elif n[0] == "ex":
                out += f"<ix:exclude>{self.xml(n[1])}</ix:exclude>"
            elif n[0] == "cm":
                out += f"<!--{n[1]}-->"
            elif n[0] == "pi":
                out += f"<?{n[1]}?>"
            elif n[0] == "num":
                out += f'<ix:nonFraction id="{n[1]}" contextRef="c" unitRef="u" decimals="INF" name="d:Num" format="ixt:num-dot-decimal">{n[2]}</ix:nonFraction>'
            else:
                k = n[1]
                if n[0] == "fact":
                    f = self.facts[k]
                    nxt = f["chain"][0] if f["chain"] else None
                    A = f' id="{k}" contextRef="c" name="d:Text"' + (f' escape="{f["escape"]}"' if f["escape"] else "")
                    tag = "ix:nonNumeric"
                else:
                    ch = self.facts[k.split("c")[0]]["chain"]
                    i = ch.index(k)
                    nxt = ch[i + 1] if i + 1 < len(ch) else None
                    A, tag = f' id="{k}"', "ix:continuation"
                out += f'<{tag}{A}' + (f' continuedAt="{nxt}"' if nxt else "") + f">{self.xml(self.kids[k])}</{tag}>"
        return out

    # -- meaning
    def plain(self, nodes):
        out = ""
        for n in nodes:
            if isinstance(n, str):
                out += n
            elif n[0] == "el":
                out += self.plain(n[3])
            elif n[0] == "num":
                out += n[2]
            elif n[0] in ("fact", "cont"):
                out += self.plain(self.kids[n[1]])
        return out

    def markup(self, nodes):
        """list of strings and (tag, attributes, content)"""
        out = []
        for n in nodes:
            if isinstance(n, str):
                out.append(n)
            elif n[0] == "el":
                out.append((n[1], sorted(n[2].items()), self.markup(n[3])))
            elif n[0] == "num":
                out.append(n[2])
            elif n[0] in ("fact", "cont"):
                out += self.markup(self.kids[n[1]])
        return merged(out)


def merged(xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            if x == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def infoset(e):
    out = [e.text or ""]
    for c in e:
        if isinstance(c.tag, str):
            q = etree.QName(c)
            out.append((q.localname if q.namespace == XHTML else "{%s}%s" % (q.namespace, q.localname), sorted(c.attrib.items()), infoset(c)))
        out.append(c.tail or "")
    return merged(out)


def run(p, env):
    r = random.Random(p["s"])
    d = Doc(r, p)
    body = d.build()
    x = d.xml(body)
    path = ixdoc.write(env.dir(), x, first=p["first"], h=p["h"])
    fl = Filing.open(path)
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if set(got) != set(d.facts) | set(d.nums):
        raise Violation("text:facts", f"facts {sorted(set(got) ^ (set(d.facts) | set(d.nums)))[:5]} missing or added")
    for k, f in d.facts.items():
        parts = [d.kids[k]] + [d.kids[c] for c in f["chain"]]
        if f["escape"] in ("true", "1"):
            want = merged([y for q in parts for y in d.markup(q)])
            try:
                have = infoset(etree.fromstring(f'<x xmlns="{XHTML}">{got[k]}</x>'))
            except etree.XMLSyntaxError as e:
                raise Violation("text:escape", f"fact {k}: value is no markup ({e}): {got[k]!r}"[:600])
            if have != want:
                raise Violation("text:escape", f"fact {k}: markup {have}, expected {want}; value {got[k]!r}"[:900])
        else:
            want = "".join(d.plain(q) for q in parts)
            if got[k] != want:
                raise Violation("text:plain", f"fact {k} chain {f['chain']}: {got[k]!r}, expected {want!r}"[:900])
    for k, v in d.nums.items():
        if got[k] != v:
            raise Violation("text:number", f"number {k}: {got[k]!r}, expected {v!r}")
    must_equal("text:errors", observe.obs_errors(fl), [])
    return Obs(key_of(p), bool(d.facts), facts=len(d.facts), escaped=sum(f["escape"] in ("true", "1") for f in d.facts.values()), continued=sum(bool(f["chain"]) for f in d.facts.values()),
               continuations=sum(len(f["chain"]) for f in d.facts.values()))


def g(r):
    return {"s": r.randrange(1 << 40), "blocks": r.randint(1, 8), "depth": r.randint(1, 5), "p_cont": r.choice([0.1, 0.4, 0.8]), "first": r.random() < 0.5, "h": r.choice(["", "", "h:"])}


def run_broken(p, env):
    """wrong continuations are reported, and do not stop the rest from being read"""
    k = p["kind"]
    F = lambda i, c, t: f'<p><ix:nonNumeric id="{i}" contextRef="c" name="d:Text"' + (f' continuedAt="{c}"' if c else "") + f">{t}</ix:nonNumeric></p>"
    C = lambda i, c, t: f'<p><ix:continuation id="{i}"' + (f' continuedAt="{c}"' if c else "") + f">{t}</ix:continuation></p>"
    body, want = {
        "loop": (F("a", "c1", "A") + C("c1", "c2", "1") + C("c2", "c1", "2"), None),
        "self": (F("a", "c1", "A") + C("c1", "c1", "1"), None),
        "missing": (F("a", "c9", "A"), "A"),
        "missing-later": (F("a", "c1", "A") + C("c1", "c9", "1"), "A1"),
        "unused": (F("a", None, "A") + C("c1", None, "1"), "A"),
        "shared": (F("a", "c1", "A") + F("b", "c1", "B") + C("c1", None, "1"), "A1"),
    }[k]
    body = [body, F("z", "y1", "Z") + C("y1", None, "Y")]
    if p["swap"]:
        body.reverse()
    fl = Filing.open(ixdoc.write(env.dir(), "".join(body), first=p["first"]))
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if got.get("z") != "ZY" or not got.get("a", "").startswith("A") or (want and got["a"] != want):
        raise Violation("text:broken-chain", f"{k}: {got}")
    if not fl.get_all_errors():
        raise Violation("text:broken-chain-unreported", k)
    return Obs(key_of(p), True, broken=1)


KINDS = ["loop", "self", "missing", "missing-later", "unused", "shared"]
SPEC = dict(probes=[Probe("text", 4000, 60000, g, run),
                    Probe("broken", 24, 24, lambda r: {"kind": r.choice(KINDS), "swap": r.random() < 0.5, "first": r.random() < 0.5, "x": r.randrange(1 << 20)}, run_broken)],
            rule="distinct documents with text facts",
            minimum={"facts": 20000, "escaped": 6000, "continued": 6000, "broken": 20})
