"""Inline documents report the same as XML documents."""
import zipfile
from collections import Counter

import ix
from common import *
from slices import fact_view


def view(sp, fs, model_side):
    out = Counter()
    typ = {model.clark(sp, i): e.get("type") for i, e in enumerate(sp["elements"])}
    for f in fs:
        v = f["value"]
        if typ.get(f["concept"]) in gen.NUMERIC and v != "":
            try:
                v = ["n", str(ix.Decimal(v).normalize() + 0)]
            except Exception:
                v = ["bad number", v]
        g = dict(f, value=v)
        out += fact_view([g], "id", "concept", "value", "decimals", "precision", "entity", "period", "unit", "dims", "is_core", "core")
    return out


def run(p, env):
    sp = ix.prepare(spec_of(p), p["iseed"])
    sp["footlinks"] = []
    if p["how"] != "file":
        sp["inst"] = sp["inst"].rsplit(".", 1)[0] + p["ext"]
    d = env.dir()
    files = ix.render_ix(sp, p["style"], p["iseed"], split=p["split"])
    if p["how"] == "zip":
        path = os.path.join(d, "report.zip")
        with zipfile.ZipFile(path, "w") as z:
            for n in sorted(files):
                z.writestr("pack/" + n, files[n])
    else:
        render.write(files, d)
        path = os.path.join(d, sp["inst"]) if p["how"] == "file" else d
    fl = Filing.open(path)
    o, m = [observe.obs_fact(f) for f in fl.get_all_facts()], model.m_facts(sp)
    if len(o) != len(m):
        raise Violation("inline:fact-count", f"{len(o)} facts reported, {len(m)} tagged\n" + diff(view(sp, o, 0), view(sp, m, 1)))
    must_equal("inline:facts", view(sp, o, 0), view(sp, m, 1))
    must_equal("inline:elements", observe.obs_elements(fl), model.m_elements(sp))
    must_equal("inline:components", observe.obs_components(fl), model.m_components(sp))
    must_equal("inline:errors", observe.obs_errors(fl), [])
    return Obs(key_of(p["gseed"], p["iseed"]), len(m) > 0, facts=len(m), split_documents=int(p['split']), nested_numbers=len(sp["nested"]))


def g(r):
    p = case(r, {"units": (1, 4), "footnotes": 0.0, "facts": (4, 14)})
    p["iseed"] = r.randrange(1 << 30)
    p["how"] = r.choice(["file", "file", "folder", "zip"])
    p["split"] = p["how"] != "file" and r.random() < 0.5
    p["ext"] = r.choice([".xhtml", ".htm", ".html"])
    return p


SPEC = dict(probes=[Probe("inline", 4000, 60000, g, run)],
            rule="distinct (report, way of writing it inline) pairs with at least one fact",
            minimum={"facts": 10000, "nested_numbers": 300})
