"""Reports are reproducible: the same documents give the same report, in the same order, in every process."""
from common import *
import json
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = ["0", "1", "77", "random"]


def g(r):
    n = 6
    return {"cases": [case(r, r.choice([{"labels": 1.0, "refs": 0.5}, {"roles": (1, 3), "tree": (4, 12), "ties": 0.6}, {"p_dims": 0.9, "dims": (1, 4)}, {}])) for _ in range(n)],
            "folder": [r.random() < 0.4 for _ in range(n)]}


def dump(paths, seed, env, full=False):
    home = env.new_home()
    e = dict(os.environ, PYTHONHASHSEED=seed, HOME=home)
    if seed in ("77", "random"):
        e["DUMP_LIST"] = seed
    if full:
        e["DUMP_FULL"] = "1"
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "dump.py")] + paths, env=e, capture_output=True, text=True, timeout=250)
    if p.returncode:
        raise Violation("exception:in-process", p.stderr[-1500:])
    return [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]


def run(p, env):
    paths = []
    for c, folder in zip(p["cases"], p["folder"]):
        path = write_spec(spec_of(c), c["style"], env.dir())
        if folder:
            d = path[:-len(spec_of(c)["inst"])]
            paths.append(d)
        else:
            paths.append(path)
    runs = [dump(paths, s, env) for s in SEEDS]
    for s, b in zip(SEEDS[1:], runs[1:]):
        if len(b) != len(paths):
            raise Violation("determinism:output", f"{len(b)} of {len(paths)} filings")
        for i, (x, y) in enumerate(zip(runs[0], b)):
            bad = [k for k in x if x[k] != y[k]]
            if bad:
                fx, fy = dump([paths[i]], SEEDS[0], env, True)[0]["_full"], dump([paths[i]], s, env, True)[0]["_full"]
                k = bad[0]
                a, c = fx.get(k), fy.get(k)
                if isinstance(a, list) and isinstance(c, list):
                    a, c = next(((u, v) for u, v in zip(a, c) if u != v), (a, c))
                raise Violation("determinism:" + k, f"hash seed {SEEDS[0]}: {str(a)[:700]}\nhash seed {s}: {str(c)[:700]}")
    t = Counter()
    for x in runs[0]:
        t.update(x["_n"])
    return Obs(key_of(p), t["facts"] > 0 and t["networks"] > 0, filings=len(paths), processes=len(SEEDS), **t)


SPEC = dict(
    rule="batches of six random filings (files and folders) are reported in full, in the reported order (facts, elements, labels, trees, node lists, languages, tables, printed output, lookups), by four processes with different hash seeds, for two of which folders list their entries in random order, and must agree; non-trivial with facts and networks",
    assumptions=["the documents of one filing do not change between the processes"],
    minimum={"filings": 150, "processes": 100},
    probes=[Probe("hash-seeds", 40, 800, g, run)])
