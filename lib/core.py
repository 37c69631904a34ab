"""Runs the probes of one check over many cases, in parallel, and reports what was observed."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK") or tempfile.gettempdir()
CPU_LIMIT = 40      # seconds of CPU for one case (a case takes some 20 ms): beyond it the call is said not to terminate
SCALE = float(os.environ.get("VERIF_SCALE", "1"))     # for development: a part of the cases only
WALL_LIMIT = 300    # seconds on the clock: beyond it the case is inconclusive


class Violation(Exception):
    """the property does not hold: mechanism is a short stable key, detail the witness"""
    def __init__(self, mechanism, detail=""):
        super().__init__(mechanism)
        self.mechanism = mechanism
        self.detail = detail


class Inconclusive(Exception):
    pass


class CpuOut(BaseException):
    pass


class WallOut(BaseException):
    pass


class Env:
    """scratch directories of one case"""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="case", dir=WORK)
        self.home = os.path.join(self.root, "home")
        os.mkdir(self.home)
        os.environ["HOME"] = self.home
        self.n = 0

    def dir(self, name=None):
        self.n += 1
        d = os.path.join(self.root, name or f"d{self.n}")
        os.makedirs(d, exist_ok=True)
        return d

    def new_home(self):
        self.n += 1
        self.home = os.path.join(self.root, f"home{self.n}")
        os.mkdir(self.home)
        os.environ["HOME"] = self.home
        return self.home

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Obs:
    """what one case observed: counters of monitored events and a key telling distinct cases apart"""
    def __init__(self, key=None, nontrivial=True, **counters):
        self.key = key
        self.nontrivial = nontrivial
        self.counters = counters


class Probe:
    def __init__(self, name, quick, thorough, gen, run, fixed=None, serial=False):
        self.name, self.quick, self.thorough, self.gen, self.run, self.fixed, self.serial = name, quick, thorough, gen, run, fixed, serial

    def count(self, tier):
        if self.fixed is not None:
            return len(self.fixed)
        n = self.quick if tier == "quick" else self.thorough
        return max(1, int(n * SCALE))

    def params(self, pid, seed, i, tier):
        if self.fixed is not None:
            return self.fixed[i]
        r = random.Random(f"{seed}:{pid}:{self.name}:{i}")
        r.tier = tier
        return self.gen(r)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _cpu(*a):
    raise CpuOut()


def _wall(*a):
    raise WallOut()


def brel_frame(tb):
    """the innermost frame inside the code under test, for the report"""
    last = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + "/brel"):
            last = f"{os.path.relpath(f.filename, REPO)}:{f.name}"
    return last


def run_case(probe, params):
    """-> (status, payload) with status ok | violation | inconclusive"""
    signal.signal(signal.SIGVTALRM, _cpu)
    signal.signal(signal.SIGALRM, _wall)
    env = Env()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        signal.alarm(WALL_LIMIT)
        try:
            o = probe.run(params, env)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.alarm(0)
        return "ok", o
    except Violation as v:
        return "violation", (v.mechanism, str(v.detail)[:4000])
    except Inconclusive as v:
        return "inconclusive", str(v)
    except CpuOut:
        return "violation", ("no-termination", f"the case used more than {CPU_LIMIT} s of CPU")
    except WallOut:
        return "inconclusive", f"the case took more than {WALL_LIMIT} s"
    except OSError as e:
        if e.errno in (28, 12, 24):
            return "inconclusive", repr(e)
        return "violation", ("exception:OSError", traceback.format_exc()[-3500:])
    except MemoryError:
        return "violation", ("memory", "the case ran out of its 6 GB of memory")
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        fr = brel_frame(e.__traceback__)
        return "violation", (f"exception:{type(e).__name__}", f"{e!r} at {fr}\n" + traceback.format_exc()[-3500:])
    finally:
        os.chdir(REPO)
        env.close()


_W = {}


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _job(job):
    pi, i = job
    probe = _W["probes"][pi]
    try:
        params = probe.params(_W["pid"], _W["seed"], i, _W["tier"])
    except Exception:
        return pi, i, "error", traceback.format_exc()[-3000:], None, None
    st, pl = run_case(probe, params)
    if st == "ok":
        if pl is None:
            pl = Obs()
        key = pl.key if pl.key is not None else digest([probe.name, params])
        return pi, i, st, (key, bool(pl.nontrivial), dict(pl.counters)), None, None
    return pi, i, st, pl, params, None


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                parts = line[len("finding: "):].split(" ", 3)
                kv = dict(x.split("=", 1) for x in parts[:3])
                out.append((kv["property"], kv["probe"], kv["mechanism"], parts[3] if len(parts) > 3 else ""))
    return out


def main(pid, spec, argv):
    """spec: probes, rule, level, assumptions, minimum={counter: least number}"""
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    probes = spec["probes"]
    t0 = time.time()
    if len(argv) >= 2 and argv[0] == "--replay":
        d = json.load(open(argv[1]))
        probe = next(p for p in probes if p.name == d["probe"])
        st, pl = run_case(probe, d["params"])
        print(st, pl if st != "ok" else vars(pl) if pl else "")
        if st == "violation":
            print(f"VIOLATION property={pid} replay={argv[1]}")
            return 1
        return 0 if st == "ok" else 2
    only = argv[argv.index("--probe") + 1] if "--probe" in argv else None
    _W.update(probes=probes, pid=pid, seed=seed, tier=tier)
    jobs, serial = [], []
    for pi, p in enumerate(probes):
        if only and p.name != only:
            continue
        for i in range(p.count(tier)):
            (serial if p.serial else jobs).append((pi, i))
    # cases of all probes interleaved, so that an early stop has seen some of each
    random.Random(seed).shuffle(jobs)
    jobs.sort(key=lambda j: probes[j[0]].fixed is None)
    counters, keys, nontrivial, evals = Counter(), set(), Counter(), 0
    per_probe = Counter()
    viol, known_hit, incon, errors = [], {}, [], []
    known = load_known()
    samples = {}

    def take(res):
        nonlocal evals
        pi, i, st, pl, params, _ = res
        name = probes[pi].name
        if st == "error":
            errors.append((name, i, pl))
            return
        evals += 1
        if st == "ok":
            key, nt, cs = pl
            per_probe[name] += 1
            for k, v in cs.items():
                counters[k] += v
            if nt:
                keys.add((name, key))
                samples.setdefault(name, i)
        elif st == "inconclusive":
            incon.append((name, i, pl))
        else:
            mech, detail = pl
            kf = next((k for k in known if k[0] == pid and k[1] == name and k[2] == mech), None)
            if kf:
                known_hit.setdefault(kf, 0)
                known_hit[kf] += 1
            else:
                viol.append((name, i, mech, detail, params))

    nproc = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    budget = spec.get("budget", {"quick": 420, "thorough": 6 * 3600})[tier]
    stopped = False
    if jobs:
        with mp.get_context("fork").Pool(nproc, _init, maxtasksperchild=400) as pool:
            for res in pool.imap_unordered(_job, jobs, chunksize=max(1, min(20, len(jobs) // (nproc * 4)))):
                take(res)
                if len(viol) >= 3 or time.time() - t0 > budget:
                    stopped = len(viol) < 3
                    pool.terminate()
                    break
    for j in serial:
        if len(viol) >= 3:
            break
        take(_job(j))

    # ---- evidence
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    smp = []
    for name, i in list(samples.items())[:4]:
        p = next(p for p in probes if p.name == name)
        try:
            params = p.params(pid, seed, i, tier)
        except Exception:
            continue
        s = json.dumps(params, ensure_ascii=True, default=str)
        smp.append({"probe": name, "case": i, "params": params if len(s) < 3000 else s[:3000] + "..."})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": spec["rule"], "samples": smp,
                       "cases_per_probe": dict(per_probe), "observed": dict(sorted(counters.items())),
                       "inconclusive": len(incon), "stopped_on_budget": stopped},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    rdir = os.path.join(VERIF, "evidence", "replay")
    for x in os.listdir(rdir):
        if x.startswith(pid + "-"):
            os.remove(os.path.join(rdir, x))
    for kf, n in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {kf[3]}")
    seen = set()
    for name, i, mech, detail, params in viol:
        rp = os.path.join(VERIF, "evidence", "replay", f"{pid}-{name}-{i}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "probe": name, "case": i, "seed": seed, "tier": tier, "mechanism": mech, "detail": detail, "params": params}, f, default=str)
        print(f"--- probe {name} case {i}: {mech}\n{detail[:int(os.environ.get('VERIF_DETAIL', '900'))]}")
        print(f"VIOLATION property={pid} replay={rp}")
    print(f"{pid} {tier} seed={seed}: {evals} cases, {len(keys)} distinct non-trivial, {len(viol)} violations, {len(incon)} inconclusive, "
          f"{ev['wall_s']} s; " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    if viol:
        return 1
    for name, i, pl in errors[:3]:
        print(f"ERROR in the harness: probe {name} case {i}\n{pl}")
    for name, i, pl in incon[:3]:
        print(f"INCONCLUSIVE probe {name} case {i}: {pl}")
    if errors or len(incon) > 0.02 * max(evals, 50):
        return 2
    for k, least in spec.get("minimum", {}).items():
        if counters[k] < least and SCALE >= 1 and not only and not stopped:
            print(f"INCONCLUSIVE: the monitor saw only {counters[k]} {k} (at least {least} expected)")
            return 2
    return 0
