"""Random filing specs (plain JSON data).  Nothing here knows anything about brel."""
import datetime
import random

STD_LABEL = "http://www.xbrl.org/2003/role/label"
LABEL_ROLES = [
    STD_LABEL,
    "http://www.xbrl.org/2003/role/terseLabel",
    "http://www.xbrl.org/2003/role/verboseLabel",
    "http://www.xbrl.org/2003/role/totalLabel",
    "http://www.xbrl.org/2003/role/periodStartLabel",
    "http://www.xbrl.org/2003/role/periodEndLabel",
    "http://www.xbrl.org/2003/role/negatedLabel",
    "http://www.xbrl.org/2003/role/documentation",
    "http://example.com/role/customLabel",
]
REF_ROLES = [
    "http://www.xbrl.org/2003/role/reference",
    "http://www.xbrl.org/2003/role/definitionRef",
    "http://www.xbrl.org/2003/role/measurementRef",
]
STD_LINK = "http://www.xbrl.org/2003/role/link"
PC = "http://www.xbrl.org/2003/arcrole/parent-child"
SI = "http://www.xbrl.org/2003/arcrole/summation-item"
CL = "http://www.xbrl.org/2003/arcrole/concept-label"
CR = "http://www.xbrl.org/2003/arcrole/concept-reference"
DIM = "http://xbrl.org/int/dim/arcrole/"
LANGS = ["en", "en-US", "de", "fr", "nl", "it-CH", "zh"]

CONCEPT_TYPES = [
    "monetaryItemType", "stringItemType", "decimalItemType", "integerItemType",
    "nonNegativeIntegerItemType", "booleanItemType", "dateItemType", "sharesItemType",
    "pureItemType", "floatItemType", "doubleItemType", "gYearItemType", "intItemType", "longItemType",
]
NUMERIC = {"monetaryItemType", "decimalItemType", "integerItemType", "nonNegativeIntegerItemType",
           "sharesItemType", "pureItemType", "floatItemType", "doubleItemType", "intItemType", "longItemType"}
INTEGER = {"integerItemType", "nonNegativeIntegerItemType", "intItemType", "longItemType"}

WORDS = ["Assets", "Cash", "Liabilities", "Equity", "Revenue", "Cost", "Profit", "Tax", "Debt", "Lease", "Goodwill",
         "Inventory", "Payable", "Receivable", "Shares", "Income", "Loss", "Reserve", "Pension", "Bonus"]
TEXTS = ["  ", "x", "plain text", "a < b & c > d", "\"quoted\" 'apos'", "Größe München", "日本語テキスト", "  lead and trail  ",
         "line1\nline2", "tab\there", "123abc", "<p>escaped html &amp; more</p>", "{}", "ö" * 40, "😀 emoji", "a]]b", "%d %s {x}",
         "None", "null", "0", "-", "true"]


class R(random.Random):
    def chance(self, p):
        return self.random() < p

    def text(self):
        if self.chance(0.5):
            return " ".join(self.choice(WORDS) for _ in range(self.randint(1, 4)))
        return self.choice(TEXTS)

    def some(self, seq, lo, hi):
        seq = list(seq)
        k = min(len(seq), self.randint(lo, hi))
        return self.sample(seq, k)

    def date(self):
        return (datetime.date(1990, 1, 1) + datetime.timedelta(days=self.randint(0, 20000))).isoformat()


def number(r, integer=False, nonneg=False):
    k = r.randint(0, 9)
    if k == 0:
        v = "0"
    elif k < 6:
        v = str(r.randint(1, 10 ** r.randint(1, 12)))
    else:
        v = str(r.randint(0, 10 ** r.randint(1, 6)))
        if not integer:
            v += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 6)))
    if not nonneg and r.chance(0.25) and v.strip("0.") != "":
        v = "-" + v
    return v


def near(r, x):
    """a string that differs little from x"""
    k = r.randrange(9)
    if k == 0:
        return x + r.choice(["0", "1", "a", " a", "_", "."])
    if k == 1:
        return x.swapcase()
    if k == 2:
        return x[:-1] or "q"
    if k == 3:
        return r.choice(["0", "a", "x"]) + x
    if k == 4 and len(x) > 1:
        i = r.randrange(len(x))
        return x[:i] + x[i + 1:]
    if k == 5:
        return x + x
    if k == 6 and len(x) > 1:
        i = r.randrange(len(x) - 1)
        return x[:i] + x[i + 1] + x[i] + x[i + 2:]
    if k == 7:
        return x.split(" ")[0] + " " + r.choice(["York", "Jersey", "1"])
    return x


def value_for(r, typ):
    if typ in INTEGER:
        return number(r, True, typ.startswith("nonNeg"))
    if typ in ("floatItemType", "doubleItemType") and r.chance(0.2):
        return r.choice(["1.5E3", "-2e-2", "INF", "-INF", "NaN", "1E5"])
    if typ in NUMERIC:
        v = number(r)
        return r.choice(["+" + v, "00" + v, v + "0"]) if r.chance(0.1) and v[0] != "-" and "." in v else v
    if typ == "booleanItemType":
        return r.choice(["true", "false"])
    if typ == "dateItemType":
        return r.date()
    if typ == "gYearItemType":
        return str(r.randint(1990, 2050))
    return r.text()


DEFAULT = dict(
    schemas=(1, 2), concepts=(3, 8), abstracts=(0, 3), members=(0, 4), dims=(0, 2), typed=(0, 1), cubes=(0, 1),
    lineitems=(0, 1), contexts=(1, 4), units=(1, 3), facts=(2, 10), roles=(0, 2), labels=0.6, refs=0.2,
    p_noid=0.3, entities=(1, 2), p_nil=0.05, p_dims=0.5, pres=0.7, cal=0.5, deff=0.5, multi_unit=0.2,
    tree=(2, 7), p_pref=0.5, split=0.0, dag=0.0, footnotes=0.2, weird_names=0.3, ties=0.15, p_decimals=0.6,
    subdirs=0.0, p_scenario=0.2, chain=0.3, labelonly_role=0.0, p_noorder=0.0, same_names=0.0, p_domcross=0.3, p_inline=0.2, same_prefix=False, p_near=0.35, p_sameid=0.15, p_again=0.15, p_big=0.05, wide=0.0,
)
# what there can be much of
BIG = [dict(facts=(40, 100)), dict(contexts=(12, 20), facts=(20, 50)), dict(units=(10, 13)), dict(roles=(8, 13), tree=(2, 4)), dict(concepts=(14, 25), tree=(12, 24), chain=0.0, wide=0.9),
       dict(concepts=(14, 25), tree=(12, 24), chain=0.95), dict(dims=(5, 9), typed=(2, 4), members=(5, 9), p_dims=1.0), dict(schemas=(4, 8)), dict(abstracts=(8, 12), tree=(10, 20), wide=0.5)]


def gen(seed, **over):
    r = R(seed)
    P = dict(DEFAULT)
    P.update(over)
    if r.chance(P["p_big"]):
        P.update({k: v for k, v in r.choice(BIG).items() if not (isinstance(v, tuple) and P[k][1] == 0)})
    n = lambda k: r.randint(*P[k])
    sp = {"seed": seed, "schemas": [], "elements": [], "roles": [], "links": [], "contexts": [], "units": [], "facts": [],
          "footlinks": [], "style": {}}
    ns = n("schemas")
    prefixes = r.sample(["ete", "co", "us-gaap", "ifrs_x", "a.b", "z9", "core", "Ünit", "base"], min(ns, 9)) + [f"m{i}" for i in range(9, ns)]
    for i in range(ns):
        uri = r.choice(["http://ex.com/%s/2024", "urn:tax:%s", "http://ex.com/%s#v1", "https://www.ex.org/tax/%s/2023-01-31"]) % f"t{i}"
        if sp["schemas"] and r.chance(P["p_near"]):
            old = sp["schemas"][-1]["ns"]
            cand = r.choice([old + "/x", old + "2", old.replace("2024", "2025").replace("01-31", "01-30"), old.swapcase() if old.startswith("urn") else old + "/", old[:-1]])
            uri = cand if cand not in {x["ns"] for x in sp["schemas"]} else uri
        d = ""
        if P["subdirs"] and i > 0 and r.chance(P["subdirs"]):
            d = r.choice(["tax/", "a/b/", "base/", "v1.0/", "a.b/c.d/"])
        fn = r.choice(["s{}.xsd", "schema{}.xsd", "tax-{}.v1.xsd", "S_{}.xsd"]).format(i)
        sp["schemas"].append({"file": d + fn, "ns": uri, "prefix": prefixes[i]})
        if P["same_prefix"]:
            # every schema calls its own namespace by the same prefix; the instance needs distinct ones
            sp["schemas"][-1]["own_prefix"] = prefixes[0]

    used = set()

    def name(base):
        while True:
            nm = base()
            if nm not in used:
                used.add(nm)
                return nm

    def cname():
        olds = [e["name"] for e in sp["elements"] if e["kind"] not in ("typedomain", "lineitems")]
        if olds and r.chance(P["p_near"] * 0.5):
            o = r.choice(olds)
            return r.choice([o + r.choice(["1", "s", "_", "Net", "-a"]), o[:1] + o[1:].lower(), o.upper(), r.choice(WORDS) + o, o + o, o[:-1] if len(o) > 2 and o[-2] not in ".-" else o + "Q"])
        nm = "".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))
        if r.chance(P["weird_names"]):
            nm += r.choice(["_1", "-x", ".v2", "É", "item", "Abstract", "Member", "Total", "9", "Axis", "日"])
        return nm

    ids = set()

    def add(kind, suffix="", **kw):
        s = r.randrange(ns)
        twins = [e["name"] for e in sp["elements"] if e["s"] != s and e["kind"] not in ("typedomain", "lineitems")
                 and (e["name"], s) not in {(x["name"], x["s"]) for x in sp["elements"]}] if P["same_names"] else []
        if twins and kind not in ("typedomain", "lineitems") and r.chance(P["same_names"]):
            nm = r.choice(twins)    # the local name of an element in another namespace
        else:
            nm = name(lambda: cname() + suffix)
        if ids and r.chance(P["p_near"] * 0.3):
            o = r.choice(sorted(ids))
            c = r.choice([o + "1", o.upper(), o + "_" + nm, "x" + o, o.lower(), o[:-1] if o[-2:-1] not in ".-" else o + "9"])
        else:
            c = None
        away = sorted({e["id"] for e in sp["elements"] if e["s"] != s and e["kind"] != "typedomain"} - {e["id"] for e in sp["elements"] if e["s"] == s})
        if away and kind != "typedomain" and r.chance(P["p_sameid"]):
            c = r.choice(away)      # ids are only unique within a document
            ids.discard(c)
        idv = c if c and c not in ids else f"{sp['schemas'][s]['prefix']}_{nm}" if r.chance(0.8) and f"{sp['schemas'][s]['prefix']}_{nm}" not in ids else f"id{len(ids)}_{nm}"
        ids.add(idv)
        e = {"s": s, "name": nm, "id": idv, "kind": kind}
        e.update(kw)
        if kind not in ("concept", "typedomain"):
            e["abs"] = r.choice(["true"] * 5 + ["1"] + ([None, "false", "0"] if kind == "member" else []))
        sp["elements"].append(e)
        return len(sp["elements"]) - 1

    for _ in range(n("concepts")):
        t = r.choice(CONCEPT_TYPES)
        add("concept", type=t, period=r.choice(["instant", "duration"]), nillable=r.choice([None, "true", "false", "true", "false", "1", "0"]),
            balance=(r.choice(["debit", "credit", None]) if t == "monetaryItemType" else None),
            abstract=r.choice([None, "false", "false", "0"]))
    for _ in range(n("abstracts")):
        add("abstract", r.choice(["", "Abstract"]))
    for _ in range(n("lineitems")):
        add("lineitems", "LineItems")
    for _ in range(n("cubes")):
        add("hypercube", r.choice(["Table", ""]))
    for _ in range(n("dims")):
        add("dimension", r.choice(["Axis", ""]))
    for _ in range(n("members")):
        add("member", r.choice(["Member", "Domain", ""]))
    for _ in range(n("typed")):
        dom = add("typedomain", r.choice(["Dom", "Dom", "LineItemsDom", "item", "Dom_LineItems"]), domtype=r.choice(["string", "integer", "date", "NMTOKEN"]))
        i = add("typeddim", r.choice(["Axis", ""]), domain=dom)
        # domain element in the same schema as the dimension (a local reference) most of the time
        if not r.chance(P["p_domcross"]):
            sp["elements"][dom]["s"] = sp["elements"][i]["s"]
        sp["elements"][dom]["inline"] = r.chance(P["p_inline"])
    r2 = list(range(len(sp["elements"])))
    # element order in the schemas is shuffled; indexes stay stable
    r.shuffle(r2)
    sp["el_order"] = r2
    E = sp["elements"]
    K = lambda *k: [i for i, e in enumerate(E) if e["kind"] in k]

    # ---- contexts
    ents = [(r.choice(["http://www.sec.gov/CIK", "http://standards.iso.org/iso/17442", "urn:ent"]),
             r.choice(["0000320193", "1234", "5493006MHB84DD0ZWV18", "ACME & Co", "Ω-1"]) + str(i))
            for i in range(n("entities"))]
    for i in range(1, len(ents)):
        if r.chance(P["p_near"]):
            o = ents[i - 1]
            ents[i] = r.choice([("http://www.sec.gov/CIK2", o[1]), (o[0] + "/", o[1]), (o[0], o[1] + "0"), (o[0], "0" + o[1]), (o[0], o[1].swapcase()), (o[0], o[1][:-1] + " " + o[1][-1]), (o[0][:-1], o[1]), ("urn:" + o[1].split(" ")[0].encode("ascii", "ignore").decode(), o[0])])
    nctx = n("contexts")
    periods = []
    for _ in range(r.randint(1, max(1, nctx))):
        a = r.date()
        if r.chance(0.5):
            periods.append([a])
        else:
            b = (datetime.date.fromisoformat(a) + datetime.timedelta(days=r.choice([0, 1, 30, 89, 365, 1000]))).isoformat()
            periods.append([a, b])
    day = lambda d, k: (datetime.date.fromisoformat(d) + datetime.timedelta(days=k)).isoformat()
    for _ in range(r.randint(0, nctx)):
        if r.chance(P["p_near"]):
            o = r.choice(periods)
            periods.append(r.choice([[o[0]], [o[-1]], [o[0], day(o[-1], r.choice([1, 31]))], [day(o[0], -r.choice([1, 30])), o[-1]], [o[0], o[0]], [day(o[0], 1)], [day(o[-1], 1), day(o[-1], 2)]]))
    tvals = []
    for i in range(nctx):
        if i and r.chance(P["p_near"] * 0.3):
            # a context that differs from another in one respect, or only in its id
            o = sp["contexts"][-1]
            c = dict(o, dims=[dict(d) for d in o["dims"]], id="cc%d" % i)
            k = r.randrange(5)
            if k == 0:
                c["period"] = r.choice(periods)
            elif k == 1:
                c["scheme"], c["entity"] = r.choice(ents)
            elif k == 2 and c["dims"]:
                c["dims"].pop(r.randrange(len(c["dims"])))
            elif k == 3 and K("member"):
                for d in c["dims"]:
                    if "mem" in d:
                        d["mem"] = r.choice(K("member"))
            r.shuffle(c["dims"])
            sp["contexts"].append(c)
            continue
        dims = []
        if r.chance(P["p_dims"]):
            mem = K("member")
            if mem:
                for d in r.some(K("dimension"), 0, 3 if P["dims"][1] < 5 else 9):
                    dims.append({"dim": d, "mem": r.choice(mem), "in": "scenario" if r.chance(P["p_scenario"]) else "segment"})
            for d in r.some(K("typeddim"), 0, 2):
                t = E[E[d]["domain"]]["domtype"]
                v = {"string": r.choice(["abc", "A & B", "x y", "ä", "0"]), "integer": str(r.randint(0, 99)),
                     "date": r.date(), "NMTOKEN": r.choice(["tok-1", "tok-2", "TOK-1"])}[t]
                if t == "string" and tvals and r.chance(P["p_near"] * 2):
                    v = near(r, r.choice(tvals)).strip() or "v"
                if t == "string" and r.chance(P["p_near"] * 0.3):
                    v = r.choice([" " + v, v + " ", v.replace(" ", "  "), v + "\n"])     # white space is part of a string
                longer = [E[o]["name"][len(E[d]["name"]):] for o in K("typeddim") if E[o]["name"].startswith(E[d]["name"]) and o != d]
                if t == "string" and longer and r.chance(P["p_near"]):
                    v = longer[0] + r.choice(tvals or ["x"])
                elif t == "integer" and r.chance(P["p_near"]):
                    v = r.choice(["0" + v, "+" + v, "-" + v, v + "0"])
                tvals.append(v)
                dims.append({"dim": d, "val": v, "in": "scenario" if r.chance(P["p_scenario"]) else "segment"})
            r.shuffle(dims)
        ent = r.choice(ents)
        sp["contexts"].append({"id": r.choice(["c-%d", "ctx%d", "_%d", "D2024.%d"]) % i, "scheme": ent[0], "entity": ent[1],
                               "period": r.choice(periods), "dims": dims})
    # ---- units
    meas = [("iso4217", "USD"), ("iso4217", "CHF"), ("iso4217", "EUR"), ("xbrli", "shares"), ("xbrli", "pure"), (0, "widget"), (0, "kWh")]
    for i in range(n("units")):
        u = {"id": r.choice(["u-%d", "USD%d", "unit_%d"]) % i, "num": [r.choice(meas)], "den": []}
        if r.chance(0.35):
            u["den"] = [r.choice(meas)]
        if r.chance(P["multi_unit"]):
            u["num"].append(r.choice(meas))
            if u["den"] and r.chance(0.5):
                u["den"].append(r.choice(meas))
        if sp["units"] and r.chance(P["p_near"]):
            o = sp["units"][-1]
            u["num"], u["den"] = r.choice([(o["num"], o["den"]), (o["num"] + o["num"][:1], o["den"]), (o["num"], o["den"] + o["num"][:1]), (o["den"] or o["num"], o["num"]), (o["num"][:1], []), (o["num"] + [r.choice(meas)], o["den"])])
            u["num"], u["den"] = list(u["num"]), list(u["den"])
        sp["units"].append(u)
    # ---- facts
    conc = K("concept")
    fid = 0
    for _ in range(n("facts")):
        c = r.choice(conc)
        t = E[c]["type"]
        f = {"c": c, "ctx": r.randrange(len(sp["contexts"])), "unit": None, "id": None, "value": value_for(r, t),
             "decimals": None, "precision": None, "nil": False}
        if t in NUMERIC and sp["units"]:
            f["unit"] = r.randrange(len(sp["units"]))
            if r.chance(P["p_decimals"]):
                if r.chance(0.8):
                    f["decimals"] = r.choice(["0", "2", "-3", "-6", "INF", "4"])
                else:
                    f["precision"] = r.choice(["3", "INF", "8"])
        if not r.chance(P["p_noid"]):
            f["id"] = r.choice(["f-%d", "F%d", "fact.%d", "_x%d"]) % fid
            fid += 1
            o = r.choice(E)["id"]
            if r.chance(P["p_sameid"] * 0.4) and o not in {x["id"] for x in sp["facts"]}:
                f["id"] = o         # an element of a schema may have the id of a fact
        if r.chance(P["p_nil"]) and E[c].get("nillable") in ("true", "1"):
            f.update(nil=True, value="", decimals=None, precision=None)
        if sp["facts"] and r.chance(P["p_near"] * 0.5):
            # a duplicate of an earlier fact, or one that differs in one respect
            o = r.choice(sp["facts"])
            g = dict(o, id=f["id"])
            k = r.randrange(5)
            if k == 0:
                g["ctx"] = r.randrange(len(sp["contexts"]))
            elif k == 1 and not g["nil"]:
                g["value"] = value_for(r, E[g["c"]]["type"])
            elif k == 2 and g["unit"] is not None:
                g["unit"] = r.randrange(len(sp["units"]))
            elif k == 3 and g["decimals"] is not None:
                g["decimals"] = r.choice(["1", "-1", "10", "0"])
            f = g
        sp["facts"].append(f)
    # ---- roles and networks
    for i in range(n("roles")):
        ru = r.choice(["http://ex.com/role/R%d", "urn:role:%d", "http://ex.com/r/%d#x"]) % i
        if i and r.chance(P["p_near"]):
            o = r.choice(sp["roles"])["uri"]
            c = r.choice([o + "/", o + "0", o + "/sub", o.replace("role", "Role"), o[:-1], o.replace("http", "https")])
            ru = c if c not in {x["uri"] for x in sp["roles"]} else ru
        while ru in {x["uri"] for x in sp["roles"]}:
            ru += "_"
        sp["roles"].append({"uri": ru,
                            "id": "role%d" % i, "def": r.choice([None, "", "0001 - Statement - X", r.text()]), "s": r.randrange(ns)})
    nodes_pool = K("concept", "abstract", "lineitems", "hypercube", "dimension", "member", "typeddim")

    def tree(pool, size):
        """random forest over distinct elements: list of (parent, child)"""
        els = r.some(pool, 2, size)
        arcs = []
        nroots = 1 if r.chance(0.7) else 2
        for k, e in enumerate(els):
            if k < nroots:
                continue
            lo = 0 if not r.chance(P["chain"]) else k - 1
            arcs.append((els[0 if r.chance(P["wide"]) else r.randint(lo, k - 1)], e))
        if P["dag"] and r.chance(P["dag"]) and len(els) > 2:
            for _ in range(r.randint(1, 3)):
                a, b = sorted(r.sample(range(len(els)), 2))
                if b >= nroots and (els[a], els[b]) not in arcs:
                    arcs.append((els[a], els[b]))
        return arcs

    def orders(arcs):
        seen = {}
        out = []
        for p, c in arcs:
            used_o = seen.setdefault(p, [])
            if P["p_noorder"] and r.chance(P["p_noorder"]):
                out.append(None)
                continue
            while True:
                o = r.choice(["1", "2", "3", "4.0", "5.5", "10", "1.25", "7", "100", "0.5", "8", "9", "12", "1e1", "020", "0", "-1", "1.5", "1.05", "1.75", "99.9", "1000000"])
                if o == "1e1" and "10" in used_o or o == "10" and "1e1" in used_o:
                    continue
                if o not in used_o or (P["ties"] and r.chance(P["ties"])):
                    break
                if len(used_o) > 10:
                    o = str(100 + len(used_o))
                    break
            used_o.append(o)
            out.append(o)
        return out

    for ri, role in enumerate(sp["roles"]):
        if r.chance(P["pres"]) and len(nodes_pool) >= 2:
            arcs = tree(nodes_pool, n("tree"))
            oo = orders(arcs)
            L = [{"p": p, "c": c, "order": o, "arcrole": PC,
                  "pref": r.choice(LABEL_ROLES) if r.chance(P["p_pref"]) else None} for (p, c), o in zip(arcs, oo)]
            # an element can be listed several times below the same parent: at the beginning and at the end of a period
            while L and r.chance(P["p_again"]):
                a = dict(r.choice(L), order=again(r, L), pref=r.choice(LABEL_ROLES + [None]))
                L.append(a)
            if L:
                add_links(r, sp, P, "presentation", ri, L)
        cpool = K("concept")
        if r.chance(P["cal"]) and len(cpool) >= 2:
            arcs = tree(cpool, n("tree"))
            oo = orders(arcs)
            L = [{"p": p, "c": c, "order": o, "arcrole": SI, "weight": r.choice(["1", "-1", "1.0", "-1.0", "0.5", "2", "-0.5", "0", "-2.25", "100", "0.001", "+1"])} for (p, c), o in zip(arcs, oo)]
            if L:
                add_links(r, sp, P, "calculation", ri, L)
        if r.chance(P["deff"]) and len(nodes_pool) >= 2:
            arcs = tree(nodes_pool, n("tree"))
            oo = orders(arcs)
            L = [{"p": p, "c": c, "order": o, "arcrole": DIM + r.choice(["domain-member", "all", "hypercube-dimension", "dimension-domain", "dimension-default"])}
                 for (p, c), o in zip(arcs, oo)]
            # the domain of a dimension is often its default too: two relationships between the same elements
            while L and r.chance(P["p_again"]):
                a = dict(r.choice(L), order=again(r, L))
                a["arcrole"] = r.choice([x for x in (DIM + "dimension-default", DIM + "dimension-domain", DIM + "domain-member", DIM + "all") if x != a["arcrole"]])
                if not any((b["p"], b["c"], b["arcrole"]) == (a["p"], a["c"], a["arcrole"]) for b in L):
                    L.append(a)
            if L:
                add_links(r, sp, P, "definition", ri, L)
    # ---- labels / references
    labs = []
    for i in K("concept", "abstract", "lineitems", "hypercube", "dimension", "member", "typeddim"):
        if r.chance(P["labels"]):
            combos = [(lr, lg) for lr in LABEL_ROLES for lg in LANGS]
            first = (STD_LABEL, r.choice(LANGS)) if r.chance(0.8) else r.choice(combos)
            cs = [first] + r.some([c for c in combos if c != first], 0, 3)
            for lr, lg in cs:
                labs.append({"el": i, "role": lr, "lang": lg, "text": r.text() + (" %d" % len(labs))})
            while r.chance(P["p_near"]):
                # a label that shares role and language, text, or everything with another one
                o = dict(r.choice([x for x in labs if x["el"] == i] + labs[-3:]), el=i)
                k = r.randrange(4)
                if k == 0:
                    o["text"] = r.choice([r.text(), near(r, o["text"])]) or "t"
                elif k == 1:
                    o["lang"] = r.choice(LANGS)
                elif k == 2:
                    o["role"] = r.choice(LABEL_ROLES)
                labs.append(o)
    r.shuffle(labs)
    if labs:
        k = r.randint(1, 2)
        for part in range(k):
            sub = labs[part::k]
            if sub:
                sp["links"].append({"kind": "label", "role": None, "file": None, "labels": sub})
    refs = []
    for i in K("concept", "abstract", "member"):
        if r.chance(P["refs"]):
            for j in range(r.randint(1, 2)):
                refs.append({"el": i, "role": r.choice(REF_ROLES),
                             "parts": [[k, r.choice(["FASB", "2024-01-01", "12", "a & b", "Ω"]) + str(len(refs))] for k in r.some(["Publisher", "Name", "Number", "Section", "Paragraph", "URI"], 1, 4)]})
    if refs:
        sp["links"].append({"kind": "reference", "role": None, "file": None, "refs": refs})
    # ---- footnotes (XML: facts need ids)
    withid = [i for i, f in enumerate(sp["facts"]) if f["id"]]
    if withid and r.chance(P["footnotes"]):
        for _ in range(r.randint(1, 2)):
            fl = {"role": STD_LINK if r.chance(0.6) else "http://ex.com/role/foot", "notes": []}
            for k in range(r.randint(1, 3)):
                fl["notes"].append({"text": r.text() + " #%d" % k, "lang": r.choice(LANGS),
                                    "facts": r.some(withid, 1, 3), "order": r.choice([None, "1", "2.5"])})
            sp["footlinks"].append(fl)
    # ---- files for links
    nlb = r.randint(1, 3)
    dirs = ["", "", "lb/", "l.b/"] if P["subdirs"] and r.chance(P["subdirs"]) else [""]
    for l in sp["links"]:
        if l["file"] is None:
            l["file"] = r.choice(dirs) + {"presentation": "pre", "calculation": "cal", "definition": "def", "label": "lab", "reference": "ref"}[l["kind"]] + \
                (("-%d" % r.randrange(nlb)) if r.chance(0.5) else "") + ".xml"
    sp["inst"] = r.choice(["inst.xml", "report_htm.xml", "a.b.xml"])
    return sp


def again(r, L):
    """an order that no arc of the list has"""
    used = {float(a["order"] or 1) for a in L}
    return r.choice([o for o in ("1", "2", "3", "4", "6.5", "11", "30", "-3", "0.25", "77", "500", "%d" % (1000 + len(L))) if float(o) not in used])


def add_links(r, sp, P, kind, ri, L):
    parts = [L]
    if P["split"] and r.chance(P["split"]) and len(L) > 1:
        k = r.randint(2, 3)
        parts = [[] for _ in range(k)]
        for a in L:
            parts[r.randrange(k)].append(a)
        parts = [p for p in parts if p]
    for p in parts:
        p = list(p)
        r.shuffle(p)
        sp["links"].append({"kind": kind, "role": ri, "file": None, "arcs": p})
