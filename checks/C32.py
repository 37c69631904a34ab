"""What is printed is what is there: pprint against the objects it is given."""
import contextlib
import io
import random
import re

from brel.characteristics import Aspect
from brel.networks import LabelNetwork
from brel.utils import pprint

from slices import *

BARS = {"└──": 1, "├──": 1}
TAG = {"concept": "CONCEPT", "abstract": "ABSTRACT", "dimension": "DIMENSION", "member": "MEMBER", "lineitems": "LINE ITEMS", "hypercube": "HYPERCUBE"}
CORE = [Aspect.CONCEPT, Aspect.PERIOD, Aspect.ENTITY, Aspect.UNIT]


def printed(x):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pprint(x)
    return out.getvalue()


def plain(s):
    return s.isascii() and s.isprintable() and "|" not in s and s == s.strip()


def cells(fact):
    d = {"id": str(fact.get_id()), "value": str(fact)}
    for a in fact.get_aspects():
        d[a.get_name()] = str(fact.get_characteristic(a))
    return d


def read_table(text, title):
    """header and rows of a printed table"""
    lines = [l for l in text.split("\n") if l]
    body = [l for l in lines if not l.startswith("+")]
    if not body or any(not (l.startswith("|") and l.endswith("|")) for l in body) or title not in body[0]:
        raise Violation("print:no-table", text[:300])
    rows = [[c.strip() for c in l[1:-1].split("|")] for l in body[1:]]
    return rows[0], rows[1:]


def check_facts(facts):
    head, rows = read_table(printed(facts), "Facts Table")
    want_head = {"id", "value"} | {a.get_name() for f in facts for a in f.get_aspects()}
    if sorted(head) != sorted(want_head):
        raise Violation("print:columns", f"{head}, expected {sorted(want_head)}")
    names = [h for h in head if h in {a.get_name() for a in CORE}]
    if head[0] != "id" or head[-1] != "value" or names != [a.get_name() for a in CORE if a.get_name() in head] or head[1:1 + len(names)] != names:
        raise Violation("print:column-order", head)
    others = head[1 + len(names):-1]
    if others != sorted(others):
        raise Violation("print:column-order", head)
    if any(len(r) != len(head) for r in rows):
        raise Violation("print:row-length", rows)
    got = Counter(tuple(sorted(zip(head, r))) for r in rows)
    want = Counter(tuple(sorted((h, cells(f).get(h, "None")) for h in head)) for f in facts)
    must_equal("print:rows", got, want)
    return len(rows)


def check_fact(f):
    head, rows = read_table(printed(f), "Fact Table")
    c = cells(f)
    del c["id"]
    if head != ["aspect", "value"]:
        raise Violation("print:columns", head)
    must_equal("print:fact", sorted(map(tuple, rows)), sorted((k, v) for k, v in c.items()))


def flat(s):
    return re.sub(r"\s+", " ", s).strip()


def expected_lines(n, depth=0):
    k = n.points_to()
    need = []
    if k == "report element":
        e = n.get_report_element()
        need = ["[" + TAG[observe.kind(e)] + "]", str(e)]
        if hasattr(n, "get_weight"):
            need.append("[W=" + format(n.get_weight(), "4") + "]")
    elif k == "resource":
        r = n.get_resource()
        c = r.get_content()
        need = [r.get_role().split("/")[-1], str(c)]
        if hasattr(r, "get_language") and "LABEL" in type(r).__name__.upper():
            need.append(r.get_language())
    out = [(depth, [flat(x) for x in need])]
    for c in n.get_children():
        out += expected_lines(c, depth + 1)
    return out


def parse_lines(text):
    out = []
    for l in text.split("\n"):
        m = re.match(r"^((?:│  |   )*)(└──|├──)(.*)$", l)
        if m:
            out.append([len(m.group(1)) // 3, m.group(2), m.group(3), m.group(1)])
        elif out:
            out[-1][2] += " " + l           # the text of a resource goes on
    return out


def check_tree(text, roots, single=False):
    got = parse_lines(text)
    want = [x for r in roots for x in expected_lines(r)]
    if [g[0] for g in got] != [w[0] for w in want]:
        raise Violation("print:tree", f"printed depths {[g[0] for g in got]}, expected {[w[0] for w in want]}")
    for g, (d, need) in zip(got, want):
        t = flat(g[2])
        if t.startswith("[["):
            t = t.replace("[[", "[").replace("]]", "]")
        for x in need:
            if x not in t and x.replace("[[", "[").replace("]]", "]") not in t:
                raise Violation("print:node", f"{x!r} is missing in {t!r}")
    # the last child of every node, and no other, is drawn with an elbow; the bars go on until it
    for i, g in enumerate(got):
        last = True
        for h in got[i + 1:]:
            if h[0] < g[0]:
                break
            if h[0] == g[0]:
                last = False
                break
        if (g[1] == "└──") != (last or (single and g[0] == 0)):
            raise Violation("print:branches", text[:400])
        for j, h in enumerate(got[i + 1:]):
            if h[0] <= g[0]:
                break
            if h[3][3 * g[0]:3 * g[0] + 3] != ("   " if last else "│  "):
                raise Violation("print:bars", text[:400])
    return len(got)


def check_network(net):
    t = printed(net)
    head, _, rest = t.partition("\n")
    if net.get_link_role() not in head or str(net.get_link_name()) not in head:
        raise Violation("print:network-head", t[:200])
    second, _, rest = rest.partition("\n")
    if any(a not in second for a in net.get_arc_roles()):
        raise Violation("print:network-arcs", t[:300])
    return check_tree(rest, net.get_roots())


def squeeze(s):
    return re.sub(r"\s+", "", s)


def check_component(c):
    t = printed(c)
    nets = c.get_networks()
    want = squeeze("Component:" + c.get_URI() + "Info:" + c.get_info()) + squeeze("".join(printed(n) for n in nets))
    if not nets:
        want += squeeze("No networks in this component.")
    if squeeze(t) != want:
        raise Violation("print:component", f"{t[:300]!r}\nexpected {want[:300]!r}")


def g(r):
    p = case(r, {"same_prefix": False})
    p["pseed"] = r.randrange(1 << 40)
    return p


def run(p, env):
    sp = spec_of(p)
    r = random.Random(p["pseed"])
    for ro in sp["roles"]:      # information that looks like markup of some kind
        if r.random() < 0.5:
            ro["def"] = r.choice(["Debt [bold]", "1 - [abstract] x", "a [/red] b", "x :smile: y", "[i]", "costs \\[b] z", "[link=http://x]y", "A - Note - [Details]", "%s {0}", "long " * 40])
    fl = open_spec(sp, p["style"], env)
    facts = [f for f in fl.get_all_facts() if all(plain(x) for kv in cells(f).items() for x in kv)]
    names = Counter(a.get_name() for a in {a for f in facts for a in f.get_aspects()})
    rows = nodes = 0
    if max(names.values(), default=1) == 1:
        rows += check_facts(facts)
        if facts:
            rows += check_facts(r.sample(facts, r.randint(1, len(facts))))
            rows += check_facts([r.choice(facts)] * 2)
    for f in facts[:5]:
        check_fact(f)
    rest = [f for f in fl.get_all_facts() if f not in facts]
    for f in rest[:3]:
        if squeeze(str(f)).replace("|", "") not in squeeze(printed([f])).replace("|", "") and "\n" not in str(f):
            raise Violation("print:value", repr(str(f)))
    comps = fl.get_all_components()
    nets = [n for c in comps for n in c.get_networks()] + fl.get_all_physical_networks()
    for n in nets:
        nodes += check_network(n)
    deep = [x for n in nets for x in n.get_all_nodes()]
    for n in r.sample(deep, min(6, len(deep))):
        check_tree(printed(n), [n], True)
    for c in comps:
        check_component(c)
    if comps and printed(comps) != "".join(printed(c) for c in comps):
        raise Violation("print:component-list", len(comps))
    if read_table(printed([]), "Facts Table")[1]:
        raise Violation("print:empty", printed([]))
    for x in (None, "text", 3, [1], {}):
        try:
            printed(x)
        except TypeError:
            continue
        raise Violation("print:accepted", repr(x))
    return Obs(key_of(p), rows + nodes > 0, rows=rows, nodes=nodes, networks=len(nets), components=len(comps), other_facts=len(rest))


SPEC = dict(
    rule="random filings in random styles, role definitions that look like markup; a case is non-trivial when a fact or a node was printed",
    assumptions=["the cells of printed tables are read back for facts whose texts are printable ASCII without a bar; of the others the value is looked for"],
    minimum={"rows": 5000, "nodes": 20000, "components": 1000},
    probes=[Probe("print", 2500, 25000, g, run)])
