"""EDGAR: the filing that is opened is the newest of the kind, type and date asked for; nothing else is fetched."""
import contextlib
import datetime
import importlib
import io
import json
import random
import resource
import sys
import time

import requests
from urllib3.response import HTTPResponse

from common import *
from render import XBRLI, LINK, XLINK, XS

TYPES = ["10-K", "10-Q", "8-K"]


class Edgar:
    """stands in for the servers of the SEC: every request of the process ends here"""
    def __init__(self):
        self.docs, self.log = {}, []

    def send(self, session, request, **kw):
        u = request.url
        self.log.append(u)
        body, status = self.docs.get(u, (b"<html>not found</html>", 404))
        raw = HTTPResponse(body=io.BytesIO(body), status=status, preload_content=False, headers={"content-type": "application/json" if u.endswith("json") else "application/xml"})
        a = requests.adapters.HTTPAdapter()
        resp = a.build_response(request, raw)
        resp.content
        return resp

    def take(self):
        out, self.log = self.log, []
        return out


INST = '<xbrli:xbrl xmlns:xbrli="%s" xmlns:link="%s" xmlns:xlink="%s" xmlns:t="urn:t"><link:schemaRef xlink:type="simple" xlink:href="%s"/><xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://www.sec.gov/CIK">%s</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>%s</xbrli:instant></xbrli:period></xbrli:context><t:A id="f" contextRef="c">%s</t:A></xbrli:xbrl>'
SCH = '<xs:schema xmlns:xs="%s" xmlns:xbrli="%s" targetNamespace="urn:t"><xs:element name="A" id="t_A" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>' % (XS, XBRLI)


def g(r):
    return {"seed": r.randrange(1 << 40)}


def run(p, env):
    # the cache folder of the module is that of the user who imports it
    with contextlib.redirect_stdout(io.StringIO()):
        import brel.utils
        sys.modules.pop("brel.utils.edgar", None)
        open_edgar = importlib.import_module("brel.utils.edgar").open_edgar
    r = random.Random(p["seed"])
    E = Edgar()
    ciks = [str(r.randrange(10 ** r.randint(3, 10))) for _ in range(r.choice([1, 1, 2]))]
    ciks = list(dict.fromkeys(c.lstrip("0") or "1" for c in ciks))
    rows = {}

    def publish(c):
        """the list of filings the SEC has of a company, newest first"""
        out = []
        day = datetime.date(2024, 6, 30)
        n = r.choice([0, 4, 12, 25])
        for i in range(n):
            day -= datetime.timedelta(days=r.choice([0, 0, 1, 20, 91]))
            form = r.choice(TYPES + TYPES + ["10-K/A", "10-KT", "4", "8-K/A", "10-k"])
            rep = day - datetime.timedelta(days=r.choice([0, 3, 30, 200]))
            isx = r.choice([1, 1, 1, 0])
            out.append({"form": form, "reportDate": rep.isoformat() if form in TYPES and isx or r.random() < 0.4 else "", "filingDate": day.isoformat(), "isXBRL": isx, "accessionNumber": "%010d-%02d-%06d" % (r.randrange(10 ** 10), r.randrange(30), r.randrange(10 ** 6)),
                        "primaryDocument": r.choice(["doc%d.htm", "d-%d.htm", "doc%d.xml", "x%d_10k.htm"]) % r.randrange(100)})
        return out

    def serve(c):
        d = json.dumps({"cik": c, "name": "Company " + c, "filings": {"recent": {k: [x[k] for x in rows[c]] for k in ("form", "reportDate", "filingDate", "isXBRL", "accessionNumber", "primaryDocument")}, "files": []}})
        E.docs[meta(c)] = (d.encode(), 200)
        for x in rows[c]:
            b = base(c, x)
            if x.get("gone"):
                E.docs.pop(doc(c, x), None)
            else:
                E.docs[doc(c, x)] = ((INST % (XBRLI, LINK, XLINK, "s.xsd", c, x["reportDate"] or "2020-01-01", x["accessionNumber"])).encode(), 200)
            E.docs[b + "s.xsd"] = (SCH.encode(), 200)

    def meta(c):
        return f"https://data.sec.gov/submissions/CIK{c.zfill(10)}.json"

    def base(c, x):
        return f"https://www.sec.gov/Archives/edgar/data/{c.zfill(10)}/{x['accessionNumber'].replace('-', '')}/"

    def doc(c, x):
        n = x["primaryDocument"]
        return base(c, x) + (n[:-4] + "_htm.xml" if n.endswith(".htm") else n)
    for c in ciks:
        rows[c] = publish(c)
    known, cached = {}, {}        # what the cached list of a company says, and when it was fetched
    n = Counter()
    real_send, real_sleep = requests.Session.send, time.sleep
    requests.Session.send = lambda s, q, **kw: E.send(s, q, **kw)
    time.sleep = lambda s: None
    home = os.environ["HOME"]

    def age(days):
        for dp, _, fs in os.walk(os.path.join(home, ".brel_edgar_cache")):
            for f in fs:
                t = time.time() - days * 86400
                os.utime(os.path.join(dp, f), (t, t))
    seen = set()
    try:
        for _ in range(r.randint(2, 6)):
            c = r.choice(ciks)
            if r.random() < 0.3:    # the company files something new
                rows[c] = publish(c)
            if r.random() < 0.2 and rows[c]:
                r.choice(rows[c])["gone"] = True
            for k in ciks:
                serve(k)
            if r.random() < 0.1:
                E.docs.pop(meta(c))
            if r.random() < 0.4 and cached:
                d = r.choice([0.2, 0.9, 1.1, 1.9, 3, 400])
                age(d)
                cached = {k: d for k in cached}
            typ = r.choice(TYPES * 2 + [r.choice(["10-K/A", "4", "10-k", "", None, "8-K "])])
            date = None
            if r.random() < 0.4:
                date = r.choice([x["reportDate"] for x in rows[c]] + ["2024-02-30", "2023-01-01", "20240101", "x", *[x["reportDate"][:-1] for x in rows[c][:3] if c in cached and cached[c] <= 1 and x["reportDate"][-2:-1] not in ("0", "")], "", 20240101, "01.02.2024"])
                date = date or None
            arg = r.choice([c, c, c.zfill(10), c.zfill(min(10, len(c) + 1))])
            fault = r.random() if r.random() < 0.2 else None
            if r.random() < 0.08:
                arg = r.choice([int(c), None, c.zfill(11), "9" * 11])
            # what is to happen
            fail, want, urls = None, None, []
            if date is not None and not (isinstance(date, str) and (len(date) == 10 and valid(date) or len(date) == 9 and date[-1] in "123")):
                fail = "date"
            elif not isinstance(arg, str) or len(arg) > 10:
                fail = "cik"
            elif typ not in TYPES:
                fail = "type"
            else:
                if c not in cached or cached[c] > 1:
                    urls.append(meta(c))
                    if meta(c) not in E.docs:
                        fail = "metadata"
                    else:
                        known[c], cached[c] = [dict(x) for x in rows[c]], 0
                if fail is None:
                    fit = [x for x in known[c] if x["form"] == typ and x["isXBRL"] and (date is None or x["reportDate"] == date)]
                    if not fit:
                        fail = "none"
                    else:
                        top = max(x["reportDate"] for x in fit)
                        want = [x for x in fit if x["reportDate"] == top]
            what = f"open_edgar({arg!r}, {typ!r}, {date!r}) with {[(x['form'], x['reportDate'], x['isXBRL'], x['accessionNumber'], x['primaryDocument'], bool(x.get('gone'))) for x in known.get(c, [])]}, list aged {cached.get(c)} days"
            n["calls"] += 1
            E.take()
            out = None
            if fault is not None and urls and fail != "metadata":
                # the disk is full before the list is written: the next call finds what was there before
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (int(fault * 140), hard))
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        open_edgar(arg, typ, date)
                    raise Violation("edgar:fault", what)
                except (OSError, ValueError):
                    pass
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                if E.take() != urls:
                    raise Violation("edgar:requests-fault", f"{what}")
                n["faults"] += 1
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    out = open_edgar(arg, typ, date) if date is not None or r.random() < 0.5 else open_edgar(arg, typ)
            except (ValueError, requests.RequestException) as e:
                err = e
            log = E.take()
            if out is None:
                if fail is None and not all(doc(c, x) not in E.docs for x in want[:1]):
                    raise Violation("edgar:refused", f"{err!r}: {what}")
                if fail in ("date", "cik", "type") and log:
                    raise Violation("edgar:request-for-nothing", f"{log}: {what}")
                if fail is None:
                    urls.append(doc(c, want[0]))
                    n["unavailable"] += 1
                if fail is not None and not isinstance(err, ValueError):
                    raise Violation("edgar:error", f"{err!r}: {what}")
                if sorted(set(log)) != sorted(urls):
                    raise Violation("edgar:requests", f"{log}, expected {urls}: {what}")
                n["refusals"] += 1
                n["refused_" + (fail or "unavailable")] += 1
                continue
            if fail is not None:
                raise Violation("edgar:accepted", f"{[f.get_value_as_str() for f in out.get_all_facts()]} although {fail}: {what}")
            got = [f.get_value_as_str() for f in out.get_all_facts()]
            if got != [want[0]["accessionNumber"]]:
                raise Violation("edgar:wrong-filing", f"{got}, expected {want[0]['accessionNumber']}: {what}")
            # the filing is downloaded only once, but whether it is there can be asked again
            d = doc(c, want[0])
            allowed = set(urls) | {d, base(c, want[0]) + "s.xsd"}
            needed = set(urls) | (set() if d in seen else {d, base(c, want[0]) + "s.xsd"})
            if not needed <= set(log) <= allowed:
                raise Violation("edgar:requests", f"{log}, expected {sorted(allowed)}: {what}")
            seen.add(d)
            n["opened"] += 1
            n["with_date"] += date is not None
            n["ties"] += len(want) > 1
            n["refreshed"] += bool(urls)
            n["cached"] += not urls
    finally:
        requests.Session.send, time.sleep = real_send, real_sleep
    return Obs(key_of(p), n["opened"] > 0, **n)


def valid(s):
    try:
        return datetime.date.fromisoformat(s) and len(s) == 10 and s[4] == "-"
    except ValueError:
        return False


SPEC = dict(
    rule="random histories of calls for one or two companies whose lists of filings change, age and become unavailable, with all forms, ties, non-XBRL filings and malformed arguments; every request ends at a stand-in for the servers of the SEC; non-trivial when a filing was opened",
    assumptions=["of several filings with the same report date the first in the list of the SEC, which is the one filed last, is meant", "lists younger than a day are not asked for again"],
    minimum={"opened": 500, "refusals": 500, "with_date": 50, "refreshed": 100, "cached": 100, "ties": 20, "faults": 300},
    probes=[Probe("edgar", 5000, 60000, g, run)])
