"""Shared workload: random filings, random ways of writing them down, and the comparison with the reference model."""
import os
from collections import Counter

import gen
import model
import observe
import render
from brel import Filing
from core import Inconclusive, Obs, Probe, Violation, digest

MIX = [
    {},
    {"p_dims": 0.9, "dims": (1, 3), "members": (2, 6), "typed": (0, 2), "p_scenario": 0.5, "contexts": (2, 6)},
    {"facts": (8, 40), "contexts": (2, 8), "units": (2, 5), "p_noid": 0.5},
    {"schemas": (2, 4), "concepts": (5, 14), "subdirs": 0.6},
    {"schemas": (2, 3), "same_names": 0.4},
    {"schemas": (2, 3), "same_prefix": True},
    {"schemas": (2, 3), "same_prefix": True, "same_names": 0.5},
    {"roles": (2, 5), "tree": (3, 14), "abstracts": (1, 4), "ties": 0.4, "chain": 0.6},
    {"roles": (1, 4), "tree": (3, 10), "split": 0.9, "dag": 0.5},
    {"labels": 1.0, "refs": 0.7, "concepts": (4, 12)},
    {"footnotes": 1.0, "p_noid": 0.0},
    {"multi_unit": 0.9, "units": (3, 6), "facts": (8, 20)},
    {"concepts": (1, 2), "facts": (0, 3), "roles": (0, 1), "contexts": (1, 1), "units": (0, 1), "labels": 0.0},
]


def rand_over(r, base=None):
    o = dict(r.choice(MIX))
    if r.random() < 0.3:
        o.update(r.choice(MIX))
    if base:
        o.update(base)
    return o


def rand_style(r, encodings=True):
    s = {"seed": r.randrange(1 << 30)}

    def opt(p, k, v):
        if r.random() < p:
            s[k] = v
    opt(0.35, "comments", r.choice([0.1, 0.4]))
    opt(0.35, "shuffle_attrs", True)
    if r.random() < 0.15:
        s["indent"] = s["nl"] = ""
    elif r.random() < 0.1:
        s["indent"] = "\t"
    opt(0.25, "xbrli", r.choice(["", "x", "ns0"]))
    opt(0.25, "link", r.choice(["", "lk", "l"]))
    opt(0.2, "xlink", r.choice(["xl", "a"]))
    opt(0.2, "xbrldi", r.choice(["dim", "xdi"]))
    if r.random() < 0.2:
        s["inst_prefix"] = {str(i): f"{r.choice('pqr')}{i}" for i in range(6)}
    opt(0.2, "fact_order", r.randrange(1000))
    opt(0.2, "ctx_last", True)
    opt(0.2, "link_order", r.randrange(1000))
    opt(0.2, "ref_order", r.randrange(1000))
    opt(0.2, "lb_from_instance", True)
    opt(0.2, "charrefs", True)
    opt(0.2, "cdata", True)
    opt(0.2, "inner_comments", True)
    opt(0.2, "leaf_locs", "all")
    opt(0.2, "share_labels", True)
    opt(0.25, "share_locs", True)
    opt(0.2, "loc_prefix", r.choice(["a", "loc-", "_x."]))
    opt(0.15, "local_ns", True)
    opt(0.2, "xs", r.choice(["xsd", "schema", ""]) if s.get("link") != "" else "xsd")
    opt(0.15, "sx", [r.choice(["xbrli", "i2003", "xb"]), r.choice(["xbrldt", "dimT", "dt"]), r.choice(["dtr", "nonnum", "typ"])])
    opt(0.15, "noise", True)
    opt(0.15, "ws", True)
    opt(0.2, "lang_from", r.choice(["link", "base", "base"]))
    opt(0.15, "tuples", True)
    opt(0.1, "rebind", True)
    opt(0.15, "xs2", "w3s")
    opt(0.15, "decoy", True)
    opt(0.1, "embed", r.choice(["all", "some"]))
    opt(0.2, "used", r.choice([1, 2]))
    opt(0.15, "dflt", r.choice([0, 0, 0, 1]))
    opt(0.2, "frag", r.choice(["quote", "percent", "element", "mixed", "mixed"]))
    if encodings:
        opt(0.12, "encoding", r.choice(["utf-16", "utf-8-sig"]))
    return s


def case(r, base=None, encodings=True):
    return {"gseed": r.randrange(1 << 40), "over": rand_over(r, base), "style": rand_style(r, encodings)}


def spec_of(p):
    return gen.gen(p["gseed"], **{k: tuple(v) if isinstance(v, list) else v for k, v in p["over"].items()})


def write_spec(sp, style, d):
    render.write(render.render(sp, style), d)
    return os.path.join(d, sp["inst"])


def open_spec(sp, style, env):
    return Filing.open(write_spec(sp, style, env.dir()))


def diff(o, m, depth=0):
    """short description of the first differences"""
    if isinstance(o, Counter) and isinstance(m, Counter):
        return f"only observed: {list((o - m).items())[:4]}\nonly expected: {list((m - o).items())[:4]}"
    if isinstance(o, list) and isinstance(m, list):
        return f"only observed ({len(o)} in all): {[x for x in o if x not in m][:3]}\nonly expected ({len(m)} in all): {[x for x in m if x not in o][:3]}"
    if isinstance(o, dict) and isinstance(m, dict):
        out = []
        for k in list(m) + [k for k in o if k not in m]:
            if o.get(k) != m.get(k):
                out.append(f"{k!r}: observed {o.get(k, '(absent)')!r}, expected {m.get(k, '(absent)')!r}")
        return "\n".join(out[:4])
    return f"observed {o!r}, expected {m!r}"


def must_equal(mechanism, o, m, what=""):
    if o != m:
        raise Violation(mechanism, what + "\n" + diff(o, m))


def key_of(*parts):
    return digest(list(parts))
