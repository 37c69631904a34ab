from slices import *
from snap import canon
import copy
import random


def repartition(sp, seed):
    """the same arcs and labels, spread differently over links and files"""
    r = random.Random(seed)
    out = copy.deepcopy(sp)
    groups = {}
    for l in out["links"]:
        groups.setdefault((l["kind"], l["role"]), []).append(l)
    links = []
    files = ["n%d.xml" % i for i in range(r.randint(1, 4))]
    for (kind, role), ls in groups.items():
        key = {"label": "labels", "reference": "refs"}.get(kind, "arcs")
        items = [x for l in ls for x in l[key]]
        r.shuffle(items)
        k = r.choice([1, 1, 2, 3, len(items)])
        parts = [[] for _ in range(k)]
        for x in items:
            parts[r.randrange(k)].append(x)
        for part in parts:
            if part:
                links.append({"kind": kind, "role": role, "file": r.choice(files), key: part})
    r.shuffle(links)
    out["links"] = links
    return out


def snapshot(fl):
    o = observe.observe(fl)
    ph = o["physical"]
    return {"components": o["components"], "elements": o["elements"], "labels": ph["labels"], "refs": ph["refs"], "facts": sorted(map(canon, o["facts"])), "errors": o["errors"]}


def run(p, env):
    sp = spec_of(p)
    base = snapshot(open_spec(sp, p["style"], env))
    must_equal("partition:against-model", base["components"], model.m_components(sp))
    n = 0
    for v in p["variants"]:
        sp2 = repartition(sp, v)
        st = dict(p["style"])
        st.update(link_order=v % 1000, ref_order=v % 777)
        o = snapshot(open_spec(sp2, st, env))
        for k in base:
            must_equal("partition:" + k, o[k], base[k], f"after spreading {len(sp['links'])} links over {len(sp2['links'])}")
        n += 1
    arcs = sum(len(l.get("arcs", [])) for l in sp["links"])
    return Obs(key_of(p["gseed"], p["variants"]), arcs > 1, comparisons=n, arcs=arcs)


def g(r):
    c = case(r, r.choice([{"roles": (1, 3), "tree": (4, 14), "concepts": (5, 12), "abstracts": (1, 4), "pres": 0.9, "cal": 0.8, "deff": 0.8, "dag": 0.4},
                          {"roles": (1, 2), "tree": (6, 18), "concepts": (8, 16), "chain": 0.9, "pres": 0.9, "cal": 0.8, "deff": 0.8}]))
    c["variants"] = [r.randrange(1 << 30) for _ in range(3)]
    return c


SPEC = dict(
    rule="each random filing is opened as generated and three more times with its arcs, labels and references spread differently over extended links, link base files and positions; non-trivial with at least two arcs",
    assumptions=["acyclic networks without prohibited arcs", "siblings with equal order may come in any order"],
    minimum={"comparisons": 500, "arcs": 2000},
    probes=[Probe("repartition", 1800, 25000, g, run)])
