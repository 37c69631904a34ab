"""The cache survives crashes, failed writes and concurrent openings."""
from snap import *
from httpd import Server
import pickle
import resource
import signal
import sys
import threading
import random

COUNT = None        # [number of file system events in the home so far, crash at, home, trace]


def hook(event, args):
    if COUNT is None:
        return
    if event == "open":
        if not isinstance(args[0], str) or not (isinstance(args[1], str) and any(c in args[1] for c in "wax+") or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
            return
        paths = [args[0]]
    elif event in ("os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile", "os.chmod", "os.utime", "os.listdir", "os.scandir"):
        paths = [a for a in args if isinstance(a, str)]
    else:
        return
    if not any(os.path.abspath(p).startswith(COUNT[2]) for p in paths):
        return
    COUNT[0] += 1
    if COUNT[0] == COUNT[1]:
        os._exit(77)


sys.addaudithook(hook)


def in_child(fn):
    """runs fn in a forked child, -> (exit code or -signal, result)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.alarm(120)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("exc", f"{type(e).__name__}: {e}"[:500])
            data = pickle.dumps(res)
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    return code, pickle.loads(buf) if code == 0 and buf else None


def observe_in_child(path):
    return in_child(lambda: full(Filing.open(path)))


def same(mech, res, m, what):
    code, r = res
    if code != 0 or r is None:
        raise Inconclusive(f"child died with {code}: {what}")
    if r[0] != "ok":
        raise Violation(mech + ":exception", f"{r[1]} ({what})")
    check(mech, r[1], m, what)


def listing(home):
    out = []
    for b, _, fs in os.walk(home):
        out += [os.path.relpath(os.path.join(b, f), home) for f in fs]
    return sorted(out)


def remote_setup(p, srv):
    sp = spec_of(p)
    style = dict(p["style"], abs_prefix=srv.base)
    files = render.render(sp, style)
    srv.files = files
    return sp, files


def g_crash(r):
    return case(r, {"facts": (1, 4), "concepts": (2, 6), "roles": (0, 2), "schemas": (1, 3), "p_big": 0.0})


def run_crash(p, env):
    """crash before every file system event on the cache in turn, then reopen"""
    global COUNT
    with Server({}) as srv:
        sp, files = remote_setup(p, srv)
        m = want(sp)
        d = env.dir()
        render.write({sp["inst"]: files[sp["inst"]]}, d)
        path = os.path.join(d, sp["inst"])
        k, points, torn = 0, 0, 0
        while True:
            k += 1
            home = os.path.abspath(env.new_home())

            def crash():
                global COUNT
                COUNT = [0, k, home]
                return full(Filing.open(path)) and COUNT[0]
            code, r = in_child(crash)
            if code == 0:
                if r[0] != "ok":
                    raise Violation("crash:exception", r[1])
                break
            if code != 77:
                raise Inconclusive(f"child ended with {code}")
            points += 1
            left = listing(home)
            torn += bool(left)
            what = f"after a crash before event {k} on the cache, which left {left}"
            same("crash:reopen", observe_in_child(path), m, what)
            if k > 200:
                raise Inconclusive("more than 200 crash points")
            if k % 3 == 0:
                faults = srv.files
                srv.files = {}
                same("crash:cached", observe_in_child(path), m, what + ", reopened, then without the server")
                srv.files = faults
        if points == 0:
            raise Inconclusive("no event on the cache was seen")
    return Obs(key_of(p), points > 2, crash_points=points, homes_with_leftovers=torn)


def g_write(r):
    p = g_crash(r)
    p["fracs"] = [r.random() for _ in range(4)] + [0.0, 0.999]
    p["kill"] = [r.random() < 0.5 for _ in p["fracs"]]
    return p


def run_write(p, env):
    """a write that stops half way (file size limit): the process dies, or sees the error and goes on"""
    with Server({}) as srv:
        sp, files = remote_setup(p, srv)
        m = want(sp)
        d = env.dir()
        render.write({sp["inst"]: files[sp["inst"]]}, d)
        path = os.path.join(d, sp["inst"])
        big = max(len(v) for k, v in files.items() if k != sp["inst"])
        died = failed = 0
        for frac, kill in zip(p["fracs"], p["kill"]):
            home = env.new_home()
            limit = int(big * frac)

            def stop():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                try:
                    Filing.open(path)
                except Exception:
                    pass
                else:
                    return "no fault"
                # the disk has room again: the same process tries once more
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                return full(Filing.open(path))
            code, r = in_child(stop)
            what = f"after a write stopped at {limit} bytes ({'killed' if kill else 'error'}), left {listing(home)}"
            if code == -signal.SIGXFSZ:
                died += 1
            elif code == 0:
                if r[0] != "ok":
                    raise Violation("write-fault:retry", f"{r[1]} {what}")
                if r[1] != "no fault":
                    failed += 1
                    check("write-fault:retry", r[1], m, what)
            else:
                raise Inconclusive(f"child ended with {code}")
            same("write-fault:reopen", observe_in_child(path), m, what)
            f = srv.files
            srv.files = {}
            same("write-fault:cached", observe_in_child(path), m, what)
            srv.files = f
    return Obs(key_of(p), died + failed > 0, killed_in_write=died, failed_writes=failed)


def g_conc(r):
    p = g_crash(r)
    p["procs"] = r.choice([2, 3, 4, 6])
    p["seed"] = r.randrange(1 << 30)
    return p


def delays(files, r, n):
    return {k: [("delay", r.choice([0, 0, 0.001, 0.005, 0.02])) for _ in range(n)] for k in files}


def run_procs(p, env):
    """several processes open one filing at the same time over one empty cache"""
    r = random.Random(p["seed"])
    with Server({}) as srv:
        sp, files = remote_setup(p, srv)
        m = want(sp)
        srv.faults = delays(files, r, 12)
        d = env.dir()
        render.write({sp["inst"]: files[sp["inst"]]}, d)
        path = os.path.join(d, sp["inst"])
        home = env.new_home()
        results = [None] * p["procs"]
        offs = [r.choice([0, 0, 0.002, 0.01]) for _ in results]

        def one(i):
            import time

            def f():
                time.sleep(offs[i])
                return full(Filing.open(path))
            results[i] = in_child(f)
        ts = [threading.Thread(target=one, args=(i,)) for i in range(p["procs"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        order = srv.take_log()
        for i, x in enumerate(results):
            same("concurrent", x, m, f"process {i} of {p['procs']}, requests in order {order}")
        srv.files = {}
        same("concurrent:cached", observe_in_child(path), m, "afterwards, without the server")
        if srv.take_log():
            raise Violation("concurrent:refetched", "a document was requested again")
    return Obs(key_of(order, p["gseed"]), len(order) > len(set(order)), processes=p["procs"], requests=len(order), contended=len(order) - len(set(order)))


def g_threads(r):
    n = r.choice([2, 3, 4])
    return {"cases": [g_crash(r) for _ in range(n)], "same": r.random() < 0.5, "seed": r.randrange(1 << 30), "remote": r.random() < 0.5}


def run_threads(p, env):
    """several threads of one process open filings at the same time"""
    r = random.Random(p["seed"])
    cs = [p["cases"][0]] * len(p["cases"]) if p["same"] else p["cases"]
    old = sys.getswitchinterval()
    with Server({}) as srv:
        jobs = []
        for i, c in enumerate(cs):
            sp = spec_of(c)
            # addresses of different filings do not coincide
            sub = "same/" if p["same"] else f"t{i}/"
            style = dict(c["style"], abs_prefix=srv.base + sub) if p["remote"] else c["style"]
            files = render.render(sp, style)
            srv.files.update({sub + k: v for k, v in files.items()})
            d = env.dir()
            render.write({sp["inst"]: files[sp["inst"]]} if p["remote"] else files, d)
            jobs.append((os.path.join(d, sp["inst"]), want(sp)))
        srv.faults = delays(srv.files, r, 8)
        env.new_home()
        res = [None] * len(jobs)
        bar = threading.Barrier(len(jobs))

        def one(i):
            try:
                bar.wait()
                res[i] = ("ok", full(Filing.open(jobs[i][0])))
            except BaseException as e:
                import traceback
                res[i] = ("exc", traceback.format_exc()[-1500:])
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=one, args=(i,), daemon=True) for i in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        finally:
            sys.setswitchinterval(old)
        log = srv.take_log()
        for i, x in enumerate(res):
            if x is None:
                raise Inconclusive("a thread did not finish in 60 s")
            if x[0] != "ok":
                raise Violation("threads:exception", x[1])
            check("threads", x[1], jobs[i][1], f"thread {i} of {len(jobs)}")
    return Obs(key_of(p["seed"], log), True, threads=len(jobs), thread_requests=len(log))


SPEC = dict(
    level="fault_enumeration",
    rule="for random filings with remote taxonomies: a forked child is ended before each file system event on its cache directory in turn (all points are enumerated), or its writes stop at a random or extreme size (killed by SIGXFSZ, or with an error after which it retries); several processes and threads open over one empty cache against a server with random delays; afterwards the filing is reopened with and without the server and compared in full with its model. Non-trivial: at least three crash points, a fault that struck, or two processes that requested the same document",
    assumptions=["a crash keeps what the operating system was told before it (no loss of power)", "crash points are the opens for writing, renames, removals, directory and metadata operations in the home directory, and sizes of writes"],
    minimum={"crash_points": 100, "killed_in_write": 10, "failed_writes": 10, "contended": 20},
    probes=[Probe("crash", 40, 600, g_crash, run_crash), Probe("write", 60, 900, g_write, run_write),
            Probe("processes", 80, 1200, g_conc, run_procs), Probe("threads", 100, 1500, g_threads, run_threads)])
