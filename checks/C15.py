"""Remote documents: same report as from disk, fetched once ever, tolerated and reported when unavailable."""
from snap import *
from httpd import Server
import C12
import random
import shutil


# ---------------------------------------------------------------- a whole filing, over HTTP and from disk
def g_same(r):
    c = case(r, {"subdirs": r.choice([0.0, 0.6]), "facts": (1, 6)})
    c["entry"] = r.choice(["local", "remote"])
    return c


def run_same(p, env):
    sp = spec_of(p)
    m = want(sp)
    with Server({}) as srv:
        style = dict(p["style"])
        if p["entry"] == "local":
            style["abs_prefix"] = srv.base
        files = render.render(sp, style)
        srv.files = files
        remote = set(files)
        if p["entry"] == "local":
            d = env.dir()
            # the link bases and schemas are only on the server
            render.write({sp["inst"]: files[sp["inst"]]}, d)
            path = os.path.join(d, sp["inst"])
            remote.discard(sp["inst"])
        else:
            path = srv.base + sp["inst"]
        check("remote:first", full(Filing.open(path)), m)
        log = srv.take_log()
        if sorted(set(log)) != sorted(remote):
            raise Violation("remote:fetched", f"fetched {sorted(set(log))}, the filing consists of {sorted(remote)}")
        if len(log) != len(set(log)):
            raise Violation("remote:fetched-twice", f"{Counter(log).most_common(3)}")
        check("remote:second", full(Filing.open(path)), m)
        if srv.take_log():
            raise Violation("remote:refetched", "a cached document was requested again")
    # the server is gone
    check("remote:offline", full(Filing.open(path)), m)
    return Obs(key_of(p), True, fetches=len(remote), openings=3)


# ---------------------------------------------------------------- reference graphs over HTTP, with look-alike addresses


def g_graph(r):
    g = C12.gen_graph(r, True)
    S = [i for i, d in enumerate(g["docs"]) if d["kind"] == "s"]
    if r.random() < 0.6:
        # addresses that only differ in characters a file name cannot hold
        pool = r.sample(["a_b/s.xsd", "a/b/s.xsd", "a.b/s.xsd", "a-b/s.xsd", "A/B/s.xsd", "www.a/b/s.xsd", "a/b_s.xsd", "a/b.s.xsd", "a_b_s.xsd", "a/b-s.xsd", "a/b/S.xsd"], len(S))
        for i, x in zip(S, pool):
            g["docs"][i]["path"] = x
    elif r.random() < 0.5:
        # documents told apart by the query of their address
        for k, i in enumerate(S):
            g["docs"][i]["path"] = r.choice(["s.xsd?v=%d", "S.xsd?v=%d", "d/s.xsd?a=1&amp;v=%d", "s.xsd?%d"]).replace("&amp;", ";") % k
    for d in g["docs"]:
        d["path"] = d["path"].replace(" ", "-").replace("ü", "u").replace("Ü", "U")
    g["inst"] = g["inst"] if r.random() < 0.5 else "top/inst.xml"
    g["style"]["comment"] = False
    k = r.choice([0, 0, 1, 1, 2])
    bad = {}
    for i in r.sample(range(len(g["docs"])), min(k, len(g["docs"]))):
        bad[str(i)] = r.choice([["status", 404], ["status", 500], ["status", 403], ["truncate", 0.5], ["reset"]])
    g["bad"] = bad
    g["remote_entry"] = r.random() < 0.5
    return g


def reach(g, bad):
    seen, todo, missing = set(), [j for _, j in g["entry"]], set()
    while todo:
        i = todo.pop()
        if i in seen or i in missing:
            continue
        if i in bad:
            missing.add(i)
            continue
        seen.add(i)
        todo += [j for _, j in g["docs"][i]["edges"]]
    return seen, missing


def names(seen, g):
    return sorted("{urn:n%d}E%d" % (i, i) for i in seen if g["docs"][i]["kind"] == "s")


def run_graph(g, env):
    files = C12.build(g)
    bad = {int(k): v for k, v in g["bad"].items()}
    # a locator into a document that is not there is an error of its own; only links between documents are of interest here
    seen, missing = reach(g, bad)
    paths = [d["path"] for d in g["docs"]]
    with Server(files, {paths[i]: [v] * 50 for i, v in bad.items()}) as srv:
        if g["remote_entry"]:
            entry = srv.base + g["inst"]
        else:
            d = env.dir()
            t = files[g["inst"]].decode()
            for j in range(len(paths)):
                t = t.replace(f'href="{C12.url(render.rel(paths[j], g["inst"]))}"', f'href="{srv.base}{paths[j]}"').replace(f'href="./{C12.url(render.rel(paths[j], g["inst"]))}"', f'href="{srv.base}{paths[j]}"')
            render.write({os.path.basename(g["inst"]): t.encode()}, d)
            entry = os.path.join(d, os.path.basename(g["inst"]))
        fl = Filing.open(entry)
        log = Counter(srv.take_log())
        must_equal("remote:elements", sorted(observe.ck(e.get_name()) for e in fl.get_all_report_elements()), names(seen, g), f"paths {paths}, unavailable {g['bad']}, entry {g['entry']}")
        must_equal("remote:requested", sorted(x for x in log if x != g["inst"]), sorted(paths[i] for i in seen | missing))
        for i in seen:
            if log[paths[i]] > 1:
                raise Violation("remote:fetched-twice", f"{paths[i]} {log[paths[i]]} times")
        unav = [e for e in fl.get_all_errors() if any(str(srv.base + paths[i]) in str(e) for i in missing)]
        for i in missing:
            if not any(srv.base + paths[i] in str(e) for e in fl.get_all_errors()):
                raise Violation("remote:unavailable-not-reported", f"{paths[i]} ({g['bad'][str(i)]}) is not in {[str(e)[:200] for e in fl.get_all_errors()][:4]}")
        if not missing and fl.has_any_errors():
            raise Violation("remote:errors", observe.obs_errors(fl))
        # once the documents are available, the next opening finds them and only them
        srv.faults.clear()
        seen2, _ = reach(g, {})
        fl2 = Filing.open(entry)
        must_equal("remote:recovered", sorted(observe.ck(e.get_name()) for e in fl2.get_all_report_elements()), names(seen2, g), f"after {g['bad']}")
        log2 = Counter(srv.take_log())
        must_equal("remote:only-missing-requested", sorted(x for x in log2 if x != g["inst"]), sorted(paths[i] for i in seen2 - seen))
        if fl2.has_any_errors():
            raise Violation("remote:errors", observe.obs_errors(fl2))
    return Obs(key_of(g), len(seen) + len(missing) > 1, documents=len(seen), unavailable=len(missing), reported=len(unav), recovered=len(seen2 - seen))


SPEC = dict(
    rule="random filings served by a logging HTTP server and opened three times (served, cached, server gone); random reference graphs over look-alike addresses with documents that are refused, cut short or reset, opened again after the server recovered; non-trivial always for filings, with two documents for graphs",
    assumptions=["remote documents do not change", "the entry point itself is available", "one process at a time (see the crash and concurrency property)"],
    minimum={"fetches": 500, "unavailable": 200, "recovered": 100},
    probes=[Probe("filing", 250, 4000, g_same, run_same), Probe("graph", 600, 9000, g_graph, run_graph)])
