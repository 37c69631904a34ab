"""Calculation networks tell whether balances and sums agree."""
import random
from fractions import Fraction
from xml.sax.saxutils import escape

from slices import *

NS = "http://x.invalid/t"
XSD = """<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" targetNamespace="%s" xmlns:t="%s">
<xs:annotation><xs:appinfo>%s<link:linkbaseRef xlink:type="simple" xlink:href="c.xml" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/></xs:appinfo></xs:annotation>
<xs:element name="D1" id="D1" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="instant"/>
<xs:element name="D2" id="D2" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="instant" xbrldt:typedDomainRef="#dom"/>
<xs:element name="dom" id="dom" type="xs:string"/>
%s
</xs:schema>"""
ITEM = '<xs:element name="%s" id="%s" type="xbrli:%s" substitutionGroup="xbrli:item"%s xbrli:periodType="instant" nillable="true"/>'
MEM = '<xs:element name="M%d" id="M%d" type="nonnum:domainItemType" substitutionGroup="xbrli:item" abstract="true" xbrli:periodType="instant"/>'


def build(r):
    n = r.randint(2, 8)
    agree = r.random() < 0.6
    bal = [r.choice(["credit", "debit"]) if agree or r.random() < 0.85 else None for _ in range(n)]
    nets = []
    for k in range(r.choice([1, 1, 1, 2])):
        order = list(range(n))
        r.shuffle(order)
        arcs = {}
        for j in range(1, n):
            if r.random() < 0.15:
                continue        # another root
            for i in r.sample(order[:j], 1 if r.random() < 0.85 else min(j, 2)):
                c = order[j]
                if agree:
                    same = bal[i] == bal[c]
                    w = r.choice(["1", "1.0", "2", "0.5", "+1", "01", "0.1"])
                    w = w if same else "-" + w.lstrip("+")
                    if r.random() < 0.05:
                        w = "0"
                    elif r.random() < 0.06:
                        w = w[1:] if w[0] == "-" else "-" + w.lstrip("+")
                else:
                    w = r.choice(["1", "-1", "1.0", "-1.0", "0.5", "2", "-0.1", "0"])
                arcs.setdefault(i, []).append((c, w))
        if arcs:
            nets.append(arcs)
    return n, bal, nets


def fmt(r, x):
    """a decimal number in one of its ways of writing"""
    sign, digits = ("-" if x < 0 else ""), abs(x)
    k = 0
    while (digits * 10 ** k).denominator != 1:
        k += 1
    s = str(int(digits * 10 ** k)).rjust(k + 1, "0")
    s = s[:len(s) - k] + ("." + s[len(s) - k:] if k else "")
    if r.random() < 0.15:
        s = s + ("0" if "." in s else ".00")
    if r.random() < 0.05:
        s = "0" + s
    return sign + s


def topo(arcs):
    """parents after their children"""
    out, seen = [], set()

    def go(i):
        if i in seen:
            return
        seen.add(i)
        for c, _ in arcs.get(i, []):
            go(c)
        out.append(i)
    for i in sorted(arcs):
        go(i)
    return out


def g(r):
    return {"seed": r.randrange(1 << 40)}


def balance_ok(arcs, bal):
    nodes = set(arcs) | {c for cs in arcs.values() for c, _ in cs}
    if any(bal[i] is None for i in nodes):
        return False
    return all((Fraction(w) >= 0) if bal[i] == bal[c] else (Fraction(w) <= 0) for i, cs in arcs.items() for c, w in cs)


def sums(arcs, facts):
    """the set of verdicts that are right: consistent, inconsistent or undecidable"""
    verdicts = set()
    for i, cs in arcs.items():
        for (c0, key, v) in facts:
            if c0 != i:
                continue
            total, broken = Fraction(0), False
            for c, w in cs:
                vs = [x for (c1, k1, x) in facts if c1 == c and k1 == key]
                if len(vs) != 1 or vs[0] is None:
                    broken = True
                    break
                total += vs[0] * Fraction(w)
            if broken or v is None:
                verdicts.add("error")
            elif total != v:
                verdicts.add(False)
    return verdicts or {True}


def run(p, env):
    r = random.Random(p["seed"])
    n, bal, nets = build(r)
    if not nets:
        return Obs(key_of(p), False)
    name = lambda i: f"C{i}"
    roles = [f"http://x.invalid/role/{k}" for k in range(len(nets))]
    types = ["monetaryItemType" if bal[i] else r.choice(["monetaryItemType", "decimalItemType"]) for i in range(n)]
    items = "".join(ITEM % (name(i), name(i), types[i], f' xbrli:balance="{bal[i]}"' if bal[i] else "") for i in range(n)) + "".join(MEM % (k, k) for k in range(2))
    rt = "".join(f'<link:roleType roleURI="{u}" id="r{k}"><link:definition>{k}</link:definition><link:usedOn>link:calculationLink</link:usedOn></link:roleType>' for k, u in enumerate(roles))
    xsd = XSD % (NS, NS, rt, items)
    links = ""
    for k, arcs in enumerate(nets):
        locs = "".join(f'<link:loc xlink:type="locator" xlink:href="t.xsd#{name(i)}" xlink:label="{name(i)}"/>' for i in range(n) if i in arcs or any(i == c for cs in arcs.values() for c, _ in cs))
        al = [f'<link:calculationArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/summation-item" xlink:from="{name(i)}" xlink:to="{name(c)}" weight="{w}" order="{o + 1}"/>'
              for i, cs in arcs.items() for o, (c, w) in enumerate(cs)]
        r.shuffle(al)
        links += f'<link:calculationLink xlink:type="extended" xlink:role="{roles[k]}">{locs}{"".join(al)}</link:calculationLink>'
    lb = ('<link:linkbase xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink">' + "".join(f'<link:roleRef roleURI="{u}" xlink:type="simple" xlink:href="t.xsd#r{k}"/>' for k, u in enumerate(roles)) + links + "</link:linkbase>")
    # ---- contexts and units
    ents, days = ["a", "b"][:r.randint(1, 2)], ["2020-12-31", "2021-12-31"][:r.randint(1, 2)]
    dims = [(), (("D1", "M0"),), (("D1", "M1"),), (("D2", "x"),), (("D1", "M0"), ("D2", "x")), (("D2", "y"),)]
    keys = []
    for _ in range(r.choice([1, 2, 3, 4])):
        k = (r.choice(ents), r.choice(days), r.choice(dims) if r.random() < 0.7 else (), r.choice(["EUR", "USD"]) if r.random() < 0.2 else "EUR")
        if k not in keys:
            keys.append(k)
    facts = []
    base = nets[r.randrange(len(nets))]
    scale = r.choice([1, 10, 100, 1000, 10 ** 7])
    big = r.choice([100, 10 ** 6, 10 ** 15, 10 ** 21])
    for k in keys:
        val = {i: Fraction(r.randint(-big, big) if r.random() < 0.5 else r.randint(0, 1000), scale) for i in range(n)}
        for i in topo(base):
            if i in base:
                val[i] = sum((val[c] * Fraction(w) for c, w in base[i]), Fraction(0))
        gone = set()
        if r.random() < 0.35:       # only a part of the tree is reported
            top = [i for i in range(n) if i in base and not any(i == c for cs in base.values() for c, _ in cs)]
            gone = set(top[:1])
        facts += [[i, k, val[i]] for i in range(n) if i not in gone]
    step = Fraction(1, scale)
    change = r.choice(["none", "none", "value", "value", "drop", "twice", "nil", "tiny"])
    for _ in range(1 if change not in ("none",) else 0):
        j = r.randrange(len(facts))
        if change == "value":
            facts[j][2] += r.choice([1, -1, 1000]) * step
        elif change == "tiny":
            facts[j][2] += Fraction(1, 10 ** 12)
        elif change == "drop":
            del facts[j]
        elif change == "twice":
            facts.append([facts[j][0], facts[j][1], facts[j][2]])
        elif change == "nil":
            facts[j][2] = None
    r.shuffle(facts)
    cid, ctx, unit = {}, "", {}
    body = ""
    for j, (i, k, v) in enumerate(facts):
        ck = k[:3]
        if ck not in cid or r.random() < 0.2:        # the same aspects may come from several contexts
            cid[ck] = f"c{ctx.count('<xbrli:context ')}"
            seg = "".join(f'<xbrldi:explicitMember dimension="t:{d}">t:{m}</xbrldi:explicitMember>' if d == "D1" else f'<xbrldi:typedMember dimension="t:{d}"><t:dom>{m}</t:dom></xbrldi:typedMember>' for d, m in (k[2] if r.random() < 0.5 else k[2][::-1]))
            ctx += (f'<xbrli:context id="{cid[ck]}"><xbrli:entity><xbrli:identifier scheme="http://s">{k[0]}</xbrli:identifier>' + (f"<xbrli:segment>{seg}</xbrli:segment>" if seg else "") +
                    f'</xbrli:entity><xbrli:period><xbrli:instant>{k[1]}</xbrli:instant></xbrli:period></xbrli:context>')
        body += f'<t:{name(i)} id="f{j}" contextRef="{cid[ck]}" unitRef="{k[3]}" ' + (f'decimals="{r.choice(["INF", "0", "2", "-3"])}">{fmt(r, v)}</t:{name(i)}>' if v is not None else 'xsi:nil="true"/>')
    inst = ('<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
            f'xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:t="{NS}"><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>{ctx}' +
            "".join(f'<xbrli:unit id="{u}"><xbrli:measure>iso4217:{u}</xbrli:measure></xbrli:unit>' for u in ("EUR", "USD")) + body + "</xbrli:xbrl>")
    d = env.dir()
    render.write({"t.xsd": xsd.encode(), "c.xml": lb.encode(), "i.xml": inst.encode()}, d)
    fl = Filing.open(d + "/i.xml")
    if fl.get_all_errors():
        raise Violation("errors-on-valid-filing", str([str(x) for x in fl.get_all_errors()][:3]))
    fs = fl.get_all_facts()
    obs = Counter()
    for k, arcs in enumerate(nets):
        N = fl.get_component(roles[k]).get_calculation_network()
        b = N.is_balance_consistent()
        if b is not balance_ok(arcs, bal):
            raise Violation("calc:balance", f"is_balance_consistent() is {b} for {arcs} with balances {bal}")
        obs["balanced" if b else "unbalanced"] += 1
        subsets = [(fs, facts)]
        if r.random() < 0.3:        # some of the facts only
            day = r.choice(days)
            subsets.append(([f for f in fs if str(f.get_period()) == day], [x for x in facts if x[1][1] == day]))
        for some, model_facts in subsets:
            ok = sums(arcs, [tuple(x) for x in model_facts])
            try:
                got = N.is_aggregation_consistent(some)
            except ValueError:
                got = "error"
            if got not in ok or type(got) is not type(next(x for x in ok if x == got)):
                raise Violation("calc:sums", f"is_aggregation_consistent() is {got}, expected {ok} for {arcs}, facts {[(i, kk, str(v)) for i, kk, v in model_facts]}"[:1500])
            obs["sums_" + str(got)] += 1
    return Obs(key_of(p), True, **obs)


SPEC = dict(
    rule="random calculation networks with random weights and balances, facts over several periods, entities, dimensions and units that add up except for one change; non-trivial when there is a network",
    assumptions=["a fact without the facts it should be the sum of, or with several candidates for one of them, makes the question undecidable (ValueError)",
                 "if facts are missing and others do not add up, both answers are right"],
    minimum={"balanced": 500, "unbalanced": 500, "sums_True": 500, "sums_False": 300, "sums_error": 300},
    probes=[Probe("networks", 4000, 40000, g, run)])
