"""Filings do not influence each other, and reopening shows the documents as they now are."""
from snap import *
import random
import shutil

SMALL = {"facts": (1, 6), "concepts": (2, 5), "roles": (0, 2)}


def g_multi(r):
    n = r.randint(2, 4)
    cs = [case(r, dict(SMALL)) for _ in range(n)]
    # the documents of all filings have the same names in half of the cases, so that only the directory differs
    steps = []
    for _ in range(r.randint(3, 8)):
        steps.append([r.choice(["open", "open", "look", "edit"]), r.randrange(n)])
    return {"filings": cs, "same": r.random() < 0.6, "steps": steps, "seed": r.randrange(1 << 30), "relative": r.random() < 0.5}


def rename(sp):
    """documents named by their kind and position only"""
    ren = {s["file"]: f"s{i}.xsd" for i, s in enumerate(sp["schemas"])}
    for i, s in enumerate(sp["schemas"]):
        s["file"] = ren[s["file"]]
    lbs = {}
    for l in sp["links"]:
        l["file"] = lbs.setdefault(l["file"], f"lb{len(lbs)}.xml")
    sp["inst"] = "inst.xml"


def spec_for(c, same):
    sp = spec_of(c)
    if same:
        rename(sp)
    return sp


def edit(sp, r):
    """the next version of the same documents"""
    for f in sp["facts"]:
        if r.random() < 0.6 and not f["nil"]:
            f["value"] = f["value"] + str(r.randint(0, 9))
    if sp["facts"] and r.random() < 0.3:
        sp["facts"].pop()
        sp["footlinks"] = []
    for c in sp["contexts"]:
        if r.random() < 0.3:
            c["entity"] += "x"
    for l in sp["links"]:
        for x in l.get("labels", []):
            if r.random() < 0.5:
                x["text"] += " v2"


def run_multi(p, env):
    r = random.Random(p["seed"])
    specs = [spec_for(c, p["same"]) for c in p["filings"]]
    dirs = [env.dir(f"f{i}") for i in range(len(specs))]
    for sp, c, d in zip(specs, p["filings"], dirs):
        write_spec(sp, c["style"], d)
    opened = {}
    n = {"open": 0, "look": 0, "edit": 0}

    def op(i):
        path = os.path.join(dirs[i], specs[i]["inst"])
        if p["relative"]:
            os.chdir(dirs[i])
            path = specs[i]["inst"]
        opened[i] = (Filing.open(path), want(specs[i]))
        check("isolation:opened", full(opened[i][0]), opened[i][1], f"filing {i} after steps {p['steps']}")
        n["open"] += 1
    for what, i in p["steps"]:
        if what == "open":
            op(i)
        elif what == "look" and i in opened:
            check("isolation:held", full(opened[i][0]), opened[i][1], f"filing {i} after steps {p['steps']}")
            n["look"] += 1
        elif what == "edit":
            os.chdir("/")
            edit(specs[i], r)
            shutil.rmtree(dirs[i])
            os.makedirs(dirs[i])
            write_spec(specs[i], p["filings"][i]["style"], dirs[i])
            n["edit"] += 1
    for i in range(len(specs)):
        op(i)
    for i, (fl, m) in opened.items():
        check("isolation:held", full(fl), m, f"filing {i} at the end")
    return Obs(key_of(p), True, opens=n["open"], looks=n["look"] + len(opened), edits=n["edit"])


SPEC = dict(
    rule="histories over two to four filings in one process and one home directory, most of them with documents of equal names: open, look again at an opened one, rewrite its documents on disk, reopen; every look is compared in full with the model of the version opened; non-trivial always",
    assumptions=["documents do not change while a filing is being opened"],
    minimum={"opens": 1000, "edits": 200},
    probes=[Probe("histories", 1500, 15000, g_multi, run_multi)])
