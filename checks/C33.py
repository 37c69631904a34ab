"""Reading a filing leaves everything but the cache as it was: audit events, files, descriptors and the state of the process."""
import contextlib
import decimal
import gc
import io
import json
import locale
import logging
import random
import signal
import socket
import sys
import tempfile
import threading
import warnings
import zipfile

import ix
from brel.config.brel_config import BrelConfig
from brel.utils import pprint
from httpd import Server
from lxml import etree
from slices import *

LOG = []
ON = [False]
WRITES = ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.setxattr", "os.removexattr", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copymode",
          "shutil.copystat", "shutil.copytree", "shutil.make_archive", "shutil.unpack_archive", "tempfile.mkstemp", "tempfile.mkdtemp")
FORBIDDEN = ("subprocess.Popen", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.putenv", "os.unsetenv", "os.chdir", "os.kill", "pty.spawn", "webbrowser.open", "ctypes.dlopen", "socket.bind",
             "socket.sethostname", "syslog.openlog", "fcntl.flock", "resource.setrlimit", "signal.pthread_kill", "pickle.find_class", "marshal.loads")
NET = ("socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.gethostbyaddr", "socket.sendto", "urllib.Request", "ftplib.connect", "http.client.connect", "smtplib.connect")


def hook(event, args):
    if not ON[0] or threading.current_thread() is not threading.main_thread():
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int):
            return
        if (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) or isinstance(mode, str) and set(mode) & set("wax+"):
            LOG.append(("write", os.fsdecode(path)))
        else:
            LOG.append(("read", os.fsdecode(path)))
    elif event in WRITES:
        LOG.append(("write", *[os.fsdecode(a) for a in args if isinstance(a, (str, bytes, os.PathLike))]))
    elif event in NET:
        LOG.append(("net", event, str(args[1:] if event == "socket.connect" else args)))
    elif event in FORBIDDEN:
        if event == "marshal.loads":
            return
        LOG.append(("forbidden", event, str(args)[:200]))


HOOKED = [False]


@contextlib.contextmanager
def watching():
    if not HOOKED[0]:
        sys.addaudithook(hook)
        HOOKED[0] = True
    del LOG[:]
    ON[0] = True
    try:
        yield
    finally:
        ON[0] = False


def state():
    h = logging.getLogger()
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "decimal": str(decimal.getcontext()), "random": hash(random.getstate()),
            "logging": (h.level, len(h.handlers), h.disabled, logging.root.manager.disable), "warnings": [str(w) for w in warnings.filters], "path": list(sys.path), "recursion": sys.getrecursionlimit(),
            "signals": {int(s): str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1)}, "timeout": socket.getdefaulttimeout(), "gc": (gc.isenabled(), gc.get_threshold()),
            "config": repr(BrelConfig.output_params), "std": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "threads": sum("process_request_thread" not in t.name for t in threading.enumerate()), "switch": sys.getswitchinterval(), "excepthook": sys.excepthook, "displayhook": sys.displayhook}


def fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if not t.startswith(("pipe:", "socket:")) and not t.startswith("/proc/"):
            out.append(t)
    return Counter(out)


def tree_of(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(r, n)
            s = os.lstat(p)
            out[p] = (s.st_mode, s.st_mtime_ns, None if n in ds else open(p, "rb").read())
    return out


def use(fl, r):
    """every kind of question about a filing"""
    o = observe.observe(fl)
    fl.get_all_labels()
    with contextlib.suppress(ValueError):
        fl.generate_fact_table_pandas_df()
    for c in fl.get_all_components():
        for n in c.get_networks():
            n.convert_to_dict()
        if c.has_calculation_network():
            c.get_calculation_network().is_balance_consistent()
            with contextlib.suppress(ValueError):
                c.get_calculation_network().is_aggregation_consistent(fl.get_all_facts())
    for f in fl.get_all_facts()[:5]:
        with contextlib.suppress(ValueError):
            float(f)
        fl.get_facts_by_concept(f.get_concept())
    fl.get_all_reported_concepts(), fl.get_errors(), fl.get_all_component_uris()
    return o


def entity(r, files, sp, d, srv):
    """a document that asks for other files; returns what must not appear in the report"""
    secret = os.path.join(d, "..", "secret.txt")
    with open(secret, "w") as f:
        f.write("S3CR3T")
    srv.files["evil.dtd"] = b'<!ENTITY leak "S3CR3T">'
    srv.files["evil.txt"] = b"S3CR3T"
    how = r.choice(["file", "http", "dtd", "param"])
    dtd = {"file": f'[<!ENTITY leak SYSTEM "file://{os.path.abspath(secret)}">]', "http": f'[<!ENTITY leak SYSTEM "{srv.base}evil.txt">]', "dtd": f'SYSTEM "{srv.base}evil.dtd"',
           "param": f'[<!ENTITY % p SYSTEM "{srv.base}evil.dtd"> %p;]'}[how]
    names = [n for n in files if n == sp["inst"] or n.endswith((".xsd", ".xml"))]
    name = sp["inst"] if r.random() < 0.6 else r.choice(names)
    t = etree.fromstring(files[name])
    X = "{http://www.w3.org/1999/xlink}"
    cand = [e for e in t.iter("{*}*") if e.get("contextRef") is not None or e.get(X + "type") == "resource" or e.tag.endswith("}definition")]
    if not cand:
        return None
    for e in r.sample(cand, min(3, len(cand))):
        for c in list(e):
            e.remove(c)
        e.text = "@@LEAK@@"
    root = etree.QName(t).localname if t.prefix is None else f"{t.prefix}:{etree.QName(t).localname}"
    files[name] = f'<?xml version="1.0" encoding="UTF-8"?>\n<!DOCTYPE {root} {dtd}>\n'.encode() + etree.tostring(t).replace(b"@@LEAK@@", b"&leak;")
    return how


def g(r):
    p = case(r, {"facts": (1, 8), "subdirs": r.choice([0.0, 0.6]), "p_big": 0.01})
    p["how"] = r.choice(["file", "folder", "zip", "inline", "remote", "entity", "entity", "bad"])
    p["seed"] = r.randrange(1 << 40)
    return p


WARM = []


def run(p, env):
    r = random.Random(p["seed"])
    if not WARM:        # what is loaded on first use is not part of the observation
        WARM.append(1)
        with Server({}) as srv:
            s0 = gen.gen(1, facts=(1, 3), p_big=0.0)
            srv.files = render.render(s0, {})
            use(Filing.open(srv.base + s0["inst"]), r)
        env.new_home()
    sp = spec_of(p)
    how = p["how"]
    d = env.dir("in")
    tmp = env.dir("tmp")
    cwd = env.dir("cwd")
    home = os.environ["HOME"]
    os.chdir(cwd)
    old, tempfile.tempdir = tempfile.tempdir, tmp
    leak = None
    # the locale of the process need not be that of the environment
    lc, lang = locale.setlocale(locale.LC_ALL), os.environ.get("LC_ALL")
    if r.random() < 0.5:
        os.environ["LC_ALL"] = r.choice(["C.UTF-8", "C", "POSIX"])
        locale.setlocale(locale.LC_ALL, "C" if os.environ["LC_ALL"] == "C.UTF-8" else "C.UTF-8")
    try:
        with Server({}) as srv:
            if how == "inline":
                sp = ix.prepare(sp, p["seed"])
                sp["footlinks"] = []
                sp["inst"] = "doc.xhtml"
                files = ix.render_ix(sp, p["style"], p["seed"], split=False)
            else:
                files = render.render(sp, p["style"])
            if how == "entity":
                leak = entity(r, files, sp, d, srv)
            if how == "bad":
                k = r.choice(["missing", "kind", "malformed", "zip", "empty"])
                path = os.path.join(d, {"kind": "x.txt", "zip": "x.zip", "missing": "no.xml"}.get(k, "inst.xml"))
                if k != "missing":
                    with open(path, "wb") as f:
                        f.write({"kind": b"text", "zip": b"PK no zip", "malformed": b"<a><b></a>", "empty": b""}[k])
            elif how == "remote":
                srv.files = files
                path = srv.base + sp["inst"]
            elif how == "zip":
                path = os.path.join(d, "r.zip")
                with zipfile.ZipFile(path, "w") as z:
                    for n in files:
                        z.writestr(n, files[n])
            else:
                render.write(files, d)
                path = d if how == "folder" else os.path.join(d, sp["inst"])
            before, st, fd = tree_of(d), state(), fds()
            out, err = io.StringIO(), io.StringIO()
            failed, o = None, None
            st["std"] = None
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                with watching():
                    try:
                        fl = Filing.open(path)
                        o = use(fl, r)
                    except (Violation, Inconclusive):
                        raise
                    except Exception as e:
                        failed = repr(e)[:300]
                        if how not in ("bad", "entity"):
                            raise
                log = list(LOG)
                now = state()
                now["std"] = None
            hits = srv.take_log()
            port = srv.base.split(":")[2].split("/")[0]
        fl = None
        gc.collect()
        if out.getvalue() or err.getvalue():
            raise Violation("effects:printed", (out.getvalue() + err.getvalue())[:300])
        must_equal("effects:process-state", now, st, how)
        must_equal("effects:input-changed", tree_of(d), before, how)
        left = fds() - fd
        if left:
            raise Violation("effects:open-files", dict(left))
        cache = os.path.join(home, ".brel", "dts_cache")
        ok = (cache + os.sep, tmp + os.sep, os.environ["PYTHONPYCACHEPREFIX"] + os.sep)
        for ev in log:
            if ev[0] == "write":
                for x in ev[1:]:
                    if not os.path.isabs(x):
                        continue
                    x = os.path.normpath(x)
                    if not x.startswith(ok[0]) and not x.startswith(ok[2]) and x not in (cache, os.path.dirname(cache)) and not (x + os.sep).startswith(ok[1]):
                        raise Violation("effects:written", (how, ev))
            elif ev[0] == "forbidden":
                raise Violation("effects:forbidden", ev)
            elif ev[0] == "net" and (how != "remote" or port not in ev[2] and "127.0.0.1" not in ev[2]):
                raise Violation("effects:network", (how, ev))
        if os.listdir(cwd):
            raise Violation("effects:working-directory", os.listdir(cwd))
        if os.listdir(tmp):
            raise Violation("effects:temporary-files", os.listdir(tmp))
        there = [os.path.join(a, x) for a, _, fs in os.walk(home) for x in fs]
        if how != "remote" and there:
            raise Violation("effects:cached", there[:5])
        if how == "remote" and (len(there) != len(set(hits)) or any(os.path.dirname(x) != cache or x.endswith(".part") for x in there)):
            raise Violation("effects:cache", (there[:5], len(set(hits))))
        if how != "remote" and hits:
            raise Violation("effects:requested", hits)
        if leak and o is not None and "S3CR3T" in repr(o):
            raise Violation("effects:other-file-read", leak)
        if how == "bad" and failed is None:
            raise Violation("effects:opened-nothing", path)
    finally:
        tempfile.tempdir = old
        os.chdir("/")
        locale.setlocale(locale.LC_ALL, lc)
        os.environ.pop("LC_ALL", None)
        if lang is not None:
            os.environ["LC_ALL"] = lang
    n = Counter(e[0] for e in log)
    return Obs(key_of(p), how != "bad", audit_events=len(log), reads=n["read"], writes=n["write"], connections=n["net"], entities=int(leak is not None), entities_refused=int(leak is not None and failed is not None), **{"how_" + how: 1})


SPEC = dict(
    rule="random filings opened as file, folder, archive, inline document and over HTTP, documents with external entities, and inputs that are no filing; a case is non-trivial when something could be opened",
    assumptions=["calls that libxml2 makes itself raise no audit event: they are observed through the files, descriptors, requests and texts they leave"],
    minimum={"audit_events": 2000, "writes": 200, **{"how_" + k: 30 for k in ("file", "folder", "zip", "inline", "remote", "entity", "bad")}},
    probes=[Probe("effects", 900, 12000, g, run)])
