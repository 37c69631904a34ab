"""Everything a filing reports, in the order it reports it, for the entry paths given on the command line: one JSON line per path."""
import contextlib
import hashlib
import io
import json
import os
import sys

sys.path.insert(0, os.environ["VERIF_REPO"])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import brel
from brel import Filing
from observe import ck, kind, node_key, obs_fact, obs_label
from brel.utils import pprint_facts, pprint_network


if os.environ.get("DUMP_LIST"):
    # another file system: folders list their entries in another order
    import random
    LISTED = random.Random(os.environ["DUMP_LIST"])
    _listdir, _scandir = os.listdir, os.scandir

    def listdir(*a):
        out = _listdir(*a)
        LISTED.shuffle(out)
        return out

    class scandir:
        def __init__(self, *a):
            with _scandir(*a) as it:
                self.entries = list(it)
            LISTED.shuffle(self.entries)
            self.it = iter(self.entries)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass
    os.listdir, os.scandir = listdir, scandir


def tree(n, depth=0):
    if depth > 60:
        raise RuntimeError("deep")
    return [repr(node_key(n)), str(n.get_order()), n.get_arc_role(), [tree(c, depth + 1) for c in n.get_children()]]


def printed(f, *a):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f(*a)
    return s.getvalue()


def dump(path):
    fl = Filing.open(path)
    d = {"facts": [obs_fact(f) for f in fl.get_all_facts()],
         "aspects": [[a.get_name() for a in f.get_aspects()] for f in fl.get_all_facts()],
         "units": [[ck(q) for q in f.get_unit().get_numerators()] for f in fl.get_all_facts() if f.get_unit() is not None],
         "elements": [[ck(e.get_name()), kind(e), e.get_id(), [obs_label(l) for l in e.get_labels()]] for e in fl.get_all_report_elements()],
         "components": [], "errors": [str(e.get_full_error_code()) for e in fl.get_all_errors()],
         "languages": fl.get_preferred_languages(None, True, False, False),
         "reported": [ck(c.get_name()) for c in fl.get_all_reported_concepts()]}
    for c in fl.get_all_components():
        d["components"].append([c.get_URI(), c.get_info(), [tree(r) for n in c.get_networks() for r in n.get_roots()]])
    nets = list(fl.get_all_physical_networks()) + [n for c in fl.get_all_components() for n in c.get_networks()]
    d["networks"] = [[type(n).__name__, n.get_link_role(), n.get_arc_roles(), [tree(r) for r in n.get_roots()],
                      [repr(node_key(x)) for x in n.get_all_nodes()], [repr(node_key(x)) for r in n.get_roots() for x in r.get_all_descendants()]] for n in nets]
    for k, f in (("fact_table", fl.generate_fact_table_pandas_df), ("core_table", fl.generate_core_fact_table_pandas_df), ("label_table", fl.generate_labels_as_pandas_df),
                 ("element_table", fl.generate_report_elements_as_pandas_df)):
        df = f()
        d[k] = [list(map(str, df.columns)), df.to_csv()]
    d["printed_facts"] = printed(pprint_facts, fl.get_all_facts())
    d["printed_networks"] = [printed(pprint_network, n) for c in fl.get_all_components() for n in c.get_networks()]
    for p in ("prefix", "name"):
        d["lookup_" + p] = []
        for e in fl.get_all_report_elements():
            s = ck(e.get_name()) if p == "name" else str(e.get_name())
            try:
                d["lookup_" + p].append(ck(fl.get_report_element_by_name(s).get_name()))
            except ValueError:
                d["lookup_" + p].append(None)
    return d


if __name__ == "__main__":
    for p in sys.argv[1:]:
        d = json.loads(json.dumps(dump(p), default=str))
        out = {k: hashlib.sha256(json.dumps(v).encode()).hexdigest()[:20] for k, v in d.items()}
        out["_n"] = {"facts": len(d["facts"]), "networks": len(d["networks"]), "elements": len(d["elements"])}
        if os.environ.get("DUMP_FULL"):
            out["_full"] = d
        print(json.dumps(out))
