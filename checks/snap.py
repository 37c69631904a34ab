"""Order-insensitive comparison of a whole filing with its model."""
from common import *
import json


def canon(f):
    return json.dumps(f, sort_keys=True, ensure_ascii=False)


def full(fl):
    o = observe.observe(fl)
    o["facts"] = sorted(map(canon, o["facts"]))
    return o


def want(sp):
    m = model.model(sp)
    m["facts"] = sorted(map(canon, m["facts"]))
    return m


def check(mechanism, o, m, what=""):
    for k in m:
        must_equal(f"{mechanism}:{k}", o[k], m[k], what)
