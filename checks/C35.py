"""Aspects, values, contexts, names and elements compare equal exactly when they say the same."""
from snap import *
import copy
import random

import C18
from brel import QName
from brel.characteristics import Aspect


def g(r):
    c = case(r, {"facts": (2, 8), "contexts": (2, 5), "units": (1, 4), "p_dims": r.choice([0.5, 0.9]), "dims": (1, 3), "members": (2, 5), "typed": (0, 2),
                 "same_prefix": r.random() < 0.4, "same_names": r.choice([0.0, 0.5])})
    c["instances"] = r.choice([1, 1, 2, 3])
    c["seed"] = r.randrange(1 << 30)
    return c


def same(mech, a, b, want, what):
    for x, y in ((a, b), (b, a)):
        e, n = x == y, x != y
        if type(e) is not bool or type(n) is not bool or e is n:
            raise Violation(mech + ":not-a-comparison", f"== gives {e!r}, != gives {n!r}: {what}")
        if e is not want:
            raise Violation(mech, f"== gives {e}, expected {want}: {what}")


def twins(sp, r):
    """members and dimensions of equal local names in namespaces of equal prefixes, on otherwise equal facts"""
    E = sp["elements"]
    for kind, key in (("member", "mem"), ("dim", "dim"), ("typeddim", "dim")):
        at = [(k, d) for k, c in enumerate(sp["contexts"]) for d in c["dims"] if key in d and E[d[key]]["kind"] == kind]
        if not at:
            continue
        k, d = r.choice(at)
        a = E[d[key]]
        o = [i for i, e in enumerate(E) if e["kind"] == kind and e["s"] != a["s"] and i != d[key]
             and not any(x["s"] == e["s"] and x["name"] == a["name"] for x in E)]
        o = [i for i in o if i not in [x["dim"] for x in sp["contexts"][k]["dims"]]]
        facts = [f for f in sp["facts"] if f["ctx"] == k]
        if not o or not facts:
            continue
        b = r.choice(o)
        E[b]["name"] = a["name"]
        for e in (a, E[b]):
            sp["schemas"][e["s"]]["own_prefix"] = "own"
        c = copy.deepcopy(sp["contexts"][k])
        c["id"] = f"twin{len(sp['contexts'])}"
        next(x for x in c["dims"] if x == d)[key] = b
        sp["contexts"].append(c)
        f = dict(r.choice(facts), ctx=len(sp["contexts"]) - 1, id=f"twin_of_{kind}")
        sp["facts"].insert(0, f)
        for fl in sp["footlinks"]:
            for n in fl["notes"]:
                n["facts"] = [i + 1 for i in n["facts"]]


def run(p, env):
    r = random.Random(p["seed"])
    sp = copy.deepcopy(spec_of(p))
    if r.random() < 0.6:
        twins(sp, r)
    insts = C18.split_instances(sp, p["instances"], r)
    if len(insts) > 1:      # the files of several instances refer to footnotes by id
        for s in insts:
            s["footlinks"] = []
    files = {}
    for s in insts:
        for u in s["units"]:
            # the measures of a unit have no order, and another document may use other measures
            r.shuffle(u["num"])
            r.shuffle(u["den"])
        files.update(render.render(s, p["style"]))
    d = env.dir("pkg")
    render.write(files, d)
    fl = Filing.open(d if len(insts) > 1 else os.path.join(d, sp["inst"]))
    facts = list(fl.get_all_facts())
    r.shuffle(facts)
    facts.sort(key=lambda f: (f.get_id() or "")[:8] != "twin_of_" and r.random() < 0.8)
    said = {}
    for f in facts:
        o = observe.obs_fact(f)
        u = o["unit"]
        said[id(f)] = {"concept": o["concept"], "period": o["period"], "entity": o["entity"], "unit": u, **{"dim " + k: v for k, v in o["dims"].items()}}
        if u is None:
            del said[id(f)]["unit"]

    def name(a, f):
        if a.is_core():
            return a.get_name()
        return "dim " + observe.ck(f.get_characteristic(a).get_dimension().get_name())
    n = Counter()
    other = [None, 0, "", "x", object(), [], {}, (1,)]
    for i, f in enumerate(facts[:14]):
        for h in facts[i:14]:
            a, b = said[id(f)], said[id(h)]
            same("equality:context", f.get_context(), h.get_context(), a == b, f"{a} / {b}")
            n["context_pairs"] += 1
            n["near_contexts"] += a != b and {k: v.split("}")[-1] if isinstance(v, str) else v for k, v in a.items()} == {k: v.split("}")[-1] if isinstance(v, str) else v for k, v in b.items()}
            n["equal_contexts"] += a == b and f is not h
            for x in f.get_aspects():
                for y in h.get_aspects():
                    kx, ky = name(x, f), name(y, h)
                    same("equality:aspect", x, y, kx == ky, f"aspects {kx}, {ky}")
                    if kx == ky and hash(x) != hash(y):
                        raise Violation("equality:aspect-hash", kx)
                    same("equality:value", f.get_characteristic(x), h.get_characteristic(y), kx == ky and a[kx] == b[ky], f"{kx}: {a[kx]} / {ky}: {b[ky]}")
                    n["value_pairs"] += 1
                    n["equal_values"] += kx == ky and a[kx] == b[ky] and f is not h
        for x in f.get_aspects():
            c = f.get_characteristic(x)
            for o in other + [x.get_name(), str(c), c.get_value() if c.get_value() is not c else None, f]:
                same("equality:foreign", c, o, False, f"value {c} and {o!r}")
                same("equality:foreign", x, o, False, f"aspect {x} and {o!r}")
            same("equality:foreign", x, c, False, "aspect and its value")
        for o in other + [f, f.get_context()._get_id()]:
            same("equality:foreign", f.get_context(), o, False, f"context and {o!r}")
        same("equality:concept-of-fact", f.get_concept(), fl.get_concept(f.get_concept().get_name()), True, str(f.get_concept().get_name()))
    els = fl.get_all_report_elements()
    r.shuffle(els)
    for i, x in enumerate(els[:25]):
        q = x.get_name()
        for y in els[i:25]:
            w = observe.ck(q) == observe.ck(y.get_name())
            same("equality:element", x, y, w, f"{observe.ck(q)} / {observe.ck(y.get_name())}")
            same("equality:name", q, y.get_name(), w, f"{observe.ck(q)} / {observe.ck(y.get_name())}")
            n["element_pairs"] += 1
        # a name is a namespace and a local name; the prefix is not part of it
        t = QName(uri=q.get_URL(), prefix="zz" + q.get_prefix(), local_name=q.get_local_name())
        same("equality:name-prefix", q, t, True, observe.ck(q))
        if hash(t) != hash(q):
            raise Violation("equality:name-hash", observe.ck(q))
        same("equality:name-other", q, QName(uri=q.get_URL() + "/", prefix=q.get_prefix(), local_name=q.get_local_name()), False, observe.ck(q))
        same("equality:name-other", q, QName(uri=q.get_URL(), prefix=q.get_prefix(), local_name=q.get_local_name() + "_"), False, observe.ck(q))
        for o in other + [str(q), observe.ck(q)]:
            same("equality:foreign", q, o, False, f"name and {o!r}")
            same("equality:foreign", x, o, False, f"element and {o!r}")
        same("equality:foreign", x, q, False, "element and its name")
    core = [Aspect.CONCEPT, Aspect.PERIOD, Aspect.ENTITY, Aspect.UNIT]
    for i, x in enumerate(core):
        for j, y in enumerate(core):
            same("equality:core-aspect", x, y, i == j, f"{x}, {y}")
    for f in facts:
        for k, x in zip(("concept", "period", "entity"), core):
            if x not in f.get_aspects():
                raise Violation("equality:core-aspect", f"{x} is not among {[str(v) for v in f.get_aspects()]}")
    return Obs(key_of(p), n["context_pairs"] > 1, **n, instances=len(insts))


SPEC = dict(
    rule="random filings of one to three instances which reuse ids for other contexts and units, with measures in any order; every pair of facts, aspects, values, contexts, elements and names is compared with == and != in both directions and the outcome with what they say; non-trivial with two facts",
    assumptions=["units are the same when both their name and their measures are"],
    minimum={"context_pairs": 2000, "equal_contexts": 20, "value_pairs": 20000, "equal_values": 2000, "element_pairs": 2000},
    probes=[Probe("pairs", 900, 9000, g, run)])
