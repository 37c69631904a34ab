"""A filing that is no longer used leaves nothing behind, and what is still used keeps working without it."""
from snap import *
import gc
import random
import sys
import threading
import weakref
import zipfile
from collections import Counter
import C33
import ix
import lxml.etree
from httpd import Server
from brel import QName

READY = []
KIND = ["file", "folder", "zip", "inline", "remote", "damaged", "bad"]


def living():
    """objects of filings and documents that are alive: everything of the library that was made since the warm-up, and all trees"""
    gc.collect()
    out = Counter()
    for o in gc.get_objects():
        t = type(o)
        m = t.__module__ or ""
        if (m == "brel" or m.startswith("brel.")) and t is not QName:      # names are values
            out[f"{m.split('.')[-1]}.{t.__name__}"] += 1
        elif t is lxml.etree._Element or t is lxml.etree._ElementTree:
            out["lxml." + t.__name__] += 1
    return out


def things(fl):
    """whatever the filing gives out"""
    todo = [fl]
    todo += fl.get_all_facts() + fl.get_all_report_elements() + fl.get_all_components() + fl.get_all_physical_networks() + fl.get_all_errors()
    for f in fl.get_all_facts():
        todo.append(f.get_context())
        for a in f.get_aspects():
            if not a.is_core():
                todo.append(a)
            todo.append(f.get_characteristic(a))
    for e in fl.get_all_report_elements():
        todo += e.get_labels()
    for c in fl.get_all_components():
        for n in (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()):
            if n is not None:
                todo += [n] + n.get_roots() + n.get_all_nodes()
    return todo


def refs_to(fl):
    refs = []
    for o in {id(o): o for o in things(fl)}.values():
        try:
            refs.append((type(o).__name__, weakref.ref(o)))
        except TypeError:
            pass
    return refs


def g(r):
    n = r.randint(1, 3)
    ps = []
    for _ in range(n):
        p = case(r, {"facts": (1, 10), "p_big": 0.02})
        p["how"] = r.choice(KIND)
        ps.append(p)
    return {"filings": ps, "seed": r.randrange(1 << 40), "same": r.random() < 0.3}


def prepare(p, env, srv, r, name):
    """the documents of one filing; the path and what it must say (None: unknown)"""
    sp = spec_of(p)
    how = p["how"]
    d = env.dir(name)
    if how == "inline":
        sp = ix.prepare(sp, p["seed"] if "seed" in p else 1)
        sp["footlinks"] = []
        sp["inst"] = "doc.xhtml"
        files = ix.render_ix(sp, p["style"], r.randrange(1 << 30), split=False)
    else:
        files = render.render(sp, p["style"])
    m = None
    if how not in ("bad", "damaged", "inline"):
        m = want(sp)
    if how == "remote":
        srv.files.update({f"{name}/{k}": v for k, v in files.items()})
        return f"{srv.base}{name}/{sp['inst']}", m
    if how == "bad":
        k = r.choice(["malformed", "schema", "missing"])
        if k == "malformed":
            files[sp["inst"]] = files[sp["inst"]][:-30]
        else:
            s = r.choice([s["file"] for s in sp["schemas"]])
            files[s] = files[s][:len(files[s]) // 2]
            if k == "missing":
                del files[s]
    if how == "damaged":
        t = lxml.etree.fromstring(files[sp["inst"]])
        for e in t.iter("{*}*"):
            if e.get("contextRef") is not None and r.random() < 0.4:
                e.set("contextRef", "nowhere")
            elif e.get("unitRef") is not None and r.random() < 0.3:
                e.set("decimals", "many")
        files[sp["inst"]] = lxml.etree.tostring(t, encoding="utf-8")
    if how == "zip":
        path = os.path.join(d, "r.zip")
        with zipfile.ZipFile(path, "w") as z:
            for n in files:
                z.writestr(n, files[n])
        return path, m
    render.write(files, d)
    return (d if how == "folder" else os.path.join(d, sp["inst"])), m


def query(fl, r):
    for k in range(r.randint(0, 4)):
        q = r.choice(["table", "elements", "components", "labels", "reported", "names", "walk", "threads", "balance"])
        if q == "table":
            fl.generate_fact_table_pandas_df()
        elif q == "elements":
            fl.generate_report_elements_as_pandas_df()
        elif q == "components":
            [str(c) for c in fl.get_all_components()]
            fl.generate_components_as_pandas_df()
        elif q == "labels":
            fl.generate_labels_as_pandas_df()
        elif q == "reported":
            for c in fl.get_all_reported_concepts()[:3]:
                fl.get_facts_by_concept(c)
        elif q == "names":
            for e in fl.get_all_report_elements()[:3]:
                fl.get_report_element_by_name(e.get_name())
        elif q == "walk":
            observe.obs_physical(fl)
        elif q == "balance":
            for c in fl.get_all_components():
                n = c.get_calculation_network()
                if n is not None:
                    try:
                        n.is_aggregation_consistent(fl.get_all_facts())
                    except ValueError:
                        pass
        else:
            ts = [threading.Thread(target=full, args=(fl,)) for _ in range(2)]
            [t.start() for t in ts]
            [t.join() for t in ts]


def try_open(path):
    try:
        return Filing.open(path)
    except Exception:
        return None


def dead(what, refs):
    gc.collect()
    left = Counter(t for t, x in refs if x() is not None)
    if left:
        raise Violation("left:" + what, f"still reachable after the filing was dropped: {dict(left)} of {dict(Counter(t for t, _ in refs))}")
    return len(refs)


def grown(mech, now, before, what):
    more = {k: (before.get(k, 0), v) for k, v in now.items() if v > before.get(k, 0)}
    if more:
        raise Violation(mech, f"objects alive (before, after), {what}: {more}")


class Kept:
    """what was taken from a filing, without it"""
    def __init__(self, fl):
        self.facts, self.components, self.elements = fl.get_all_facts(), fl.get_all_components(), fl.get_all_report_elements()

    def get_all_components(self):
        return self.components

    def get_all_report_elements(self):
        return self.elements


def run(p, env):
    r = random.Random(p["seed"])
    n = Counter()
    with Server({}) as srv:
        if not READY:       # what is loaded on first use belongs to the library
            READY.append(1)
            s0 = gen.gen(1, facts=(2, 4), p_big=0.0)
            d = env.dir("warm")
            render.write(render.render(s0, {}), d)
            for k in range(2):
                fl = Filing.open(os.path.join(d, s0["inst"]))
                query(fl, random.Random(k))
                full(fl)
                fl = None
            gc.collect()
            gc.freeze()
        ps = p["filings"]
        if p["same"]:
            ps = [ps[0]] * len(ps)
        made = [prepare(q, env, srv, r, f"f{i}") for i, q in enumerate(ps)]
        if p["same"]:
            made = [made[0]] * len(made)
        start = living()
        held, levels, refs, models = [], [start], [], []
        for i, (path, m) in enumerate(made):
            fl = try_open(path)
            if fl is None:
                n["failed"] += 1
                if ps[i]["how"] != "bad":
                    fl = Filing.open(path)      # the exception tells why
                grown("left:failed-opening", living(), levels[-1], f"a filing that could not be opened ({ps[i]['how']})")
            else:
                query(fl, r)
                refs.append(refs_to(fl))
                held.append(fl)
                models.append(m)
                levels.append(living())
                n["trees"] += levels[-1]["lxml._ElementTree"] - levels[-2]["lxml._ElementTree"]
            fl = None
        # what was taken from a filing keeps working without it
        for i in range(len(held)):
            if models[i] is not None and r.random() < 0.3:
                kept = Kept(held[i])
                held[i] = None
                gc.collect()
                must_equal("kept:facts", sorted(canon(observe.obs_fact(f)) for f in kept.facts), models[i]["facts"])
                must_equal("kept:elements", observe.obs_elements(kept), models[i]["elements"])
                must_equal("kept:components", observe.obs_components(kept), models[i]["components"])
                kept = None
                n["kept"] += 1
        # dropping the last one leaves the others as they were
        while held:
            last = held[-1] is not None
            held.pop()
            n["dropped"] += 1
            n["objects"] += dead("objects", refs.pop())
            levels.pop()
            if last and all(h is not None for h in held):
                grown("left:alive", living(), levels[-1], f"{[q['how'] for q in ps]}")
            for h, m in zip(held, models):
                if h is not None and m is not None:
                    check("left:others", full(h), m)
                    n["others"] += 1
            h = m = None
        grown("left:alive", living(), start, f"{[q['how'] for q in ps]}")
        C = Counter("how_" + q["how"] for q in ps)
    return Obs(digest([key_of(q) for q in p["filings"]] + [p["seed"]]), n["objects"] > 0, **n, **C)


SPEC = dict(
    rule="one to three random filings held at a time, opened from a file, folder, archive, inline document, server, damaged documents, or documents that cannot be opened; queried, and dropped one after another; non-trivial when something was dropped",
    assumptions=["what is loaded at the first opening of a process (constants, translations, error messages) may stay; documents, facts, elements, networks and the filing may not"],
    minimum={"dropped": 100, "objects": 5000, "trees": 300, "kept": 20, "others": 50, "failed": 20, **{"how_" + k: 30 for k in KIND}},
    probes=[Probe("drops", 700, 8000, g, run)])
