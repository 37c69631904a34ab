"""Displayed dates and fixed values are read as what they mean, in every language of the registries."""
import calendar
import random
from datetime import date
from html import escape

import ixdoc
import months as M
from common import *

DMY = ["bg", "cs", "cy", "da", "de", "el", "en", "es", "et", "fi", "fr", "hr", "it", "nl", "no", "pl", "pt", "ro", "sk", "sl", "sv"]


def cased(r, s, lang):
    k = r.randrange(3)
    if lang == "en":
        return s.title() if k else s.upper()
    if k == 0:
        return s
    if k == 1:
        return s[0].upper() + s[1:]
    if lang == "el":        # Greek capitals carry no accents
        for a, b in zip("άέήίόύώΐϊ", "αεηιουωιι"):
            s = s.replace(a, b)
    return s.upper()


def show_year(r, y):
    if 2000 <= y <= 2099 and r.random() < 0.3:
        return str(y)[2:] if r.random() < 0.8 or y > 2009 else str(y)[3:]
    return str(y)


def dmy(r):
    """(format, text, value) of a readable date"""
    y = r.choice([2020, 2021, 2019, 1999, 2000, 2024, 1987, 2030, 2009, 2099, r.randint(1950, 2050)])
    m = r.randint(1, 12)
    d = r.choice([1, calendar.monthrange(y, m)[1], r.randint(1, 28), r.randint(1, 28)])
    D = r.choice([str(d), f"{d:02d}"])
    Mo = r.choice([str(m), f"{m:02d}"])
    Y = show_year(r, y)
    full, rec, my = f"{y:04d}-{m:02d}-{d:02d}", f"--{m:02d}-{d:02d}", f"{y:04d}-{m:02d}"
    k = r.random()
    sep = r.choice([".", "/", "-", " ", ". ", " / "])
    if k < 0.55:
        lang = r.choice(DMY)
        shape = r.choice(["dn", "dny", "ny"])
        n = cased(r, r.choice(M.names(lang, m, shape == "ny")), lang)
        s = r.choice([" ", " ", "-", ". "])
        if lang == "cy" and r.random() < 0.3:
            D += "af"
        if shape == "dn":
            return f"date-day-monthname-{lang}", D + s + n, rec
        if shape == "dny":
            return f"date-day-monthname-year-{lang}", D + s + n + r.choice([" ", ", ", "-"]) + Y, full
        return f"date-monthname-year-{lang}", n + r.choice([" ", ", ", " - "]) + Y, my
    if k < 0.75:
        n = lambda lang, alone=False: cased(r, r.choice(M.names(lang, m, alone)), lang)
        return r.choice([
            lambda: ("date-monthname-day-en", n("en") + " " + D + r.choice(["", "th"]), rec),
            lambda: ("date-monthname-day-year-en", n("en") + " " + D + r.choice([", ", " ", "th, "]) + Y, full),
            lambda: ("date-year-monthname-en", Y + " " + n("en"), my),
            lambda: ("date-monthname-day-hu", n("hu") + " " + D, rec),
            lambda: ("date-year-monthname-day-hu", Y + r.choice([". ", " "]) + n("hu") + " " + D, full),
            lambda: ("date-year-monthname-hu", Y + r.choice([". ", " "]) + n("hu"), my),
            lambda: ("date-monthname-day-lt", n("lt") + " " + D + r.choice(["", " d."]), rec),
            lambda: ("date-year-monthname-day-lt", Y + r.choice([" m. ", " "]) + n("lt") + " " + D + r.choice(["", " d."]), full),
            lambda: ("date-year-monthname-lt", Y + r.choice([" m. ", " "]) + n("lt", True), my),
            lambda: ("date-day-monthname-lv", D + ". " + n("lv"), rec),
            lambda: ("date-year-day-monthname-lv", Y + r.choice([". gada ", " "]) + D + ". " + n("lv"), full),
            lambda: ("date-year-monthname-lv", Y + r.choice([". gada ", " "]) + n("lv"), my),
            lambda: ("date-day-monthname-year-hi", hi(r, D) + " " + n("hi") + " " + hi(r, f"{y}"), full),
            lambda: ("date-monthname-year-hi", n("hi") + " " + hi(r, f"{y}"), my),
            lambda: ("datedaymonthyearin", hi(r, D) + " " + n("hi") + " " + hi(r, f"{y}"), full),
            lambda: ("datedaymonthyearin", hi(r, D) + sep + hi(r, Mo) + sep + hi(r, f"{y}"), full),
            lambda: ("datemonthyearin", n("hi") + " " + hi(r, f"{y}"), my),
        ])()
    if k < 0.9:
        ro = r.choice([M.ROMAN[m - 1], M.ROMAN[m - 1].lower()])
        cjk = r.random() < 0.3
        w = (lambda s: s.translate(M.WIDE)) if cjk and r.random() < 0.5 else str
        en = r.choice([M.names("en", m)[0].title(), M.names("en", m)[0][:3].title()])
        da = r.choice(M.names("da", m))
        return r.choice([
            lambda: (r.choice(["date-day-month", "datedaymonth", "dateslashdaymontheu"]), D + sep + Mo, rec),
            lambda: (r.choice(["date-month-day", "datemonthday", "dateslashmonthdayus"]), Mo + sep + D, rec),
            lambda: (r.choice(["date-day-month-year", "datedaymonthyear", "datedoteu", "dateslasheu"]), D + sep + Mo + sep + Y, full),
            lambda: (r.choice(["date-month-day-year", "datemonthdayyear", "datedotus", "dateslashus"]), Mo + sep + D + sep + Y, full),
            lambda: (r.choice(["date-year-month-day", "dateyearmonthday", "dateyearmonthdaycjk"]), w(Y) + "年" + w(Mo) + "月" + w(D) + "日" if cjk else Y + sep + Mo + sep + D, full),
            lambda: (r.choice(["date-year-month", "dateyearmonthcjk"]), w(Y) + "年" + w(Mo) + "月" if cjk else Y + sep + Mo, my),
            lambda: (r.choice(["date-month-year", "datemonthyear"]), Mo + sep + Y, my),
            lambda: ("date-day-monthroman", D + r.choice([" ", ".", "-"]) + ro, rec),
            lambda: ("date-day-monthroman-year", D + r.choice([" ", ".", "-"]) + ro + r.choice([" ", ".", "-"]) + Y, full),
            lambda: ("date-monthroman-year", ro + r.choice([" ", ".", "-"]) + Y, my),
            lambda: (r.choice(["datelonguk", "dateshortuk", "datedaymonthyearen"]), D + " " + en + " " + Y, full),
            lambda: (r.choice(["datelongus", "dateshortus", "datemonthdayyearen"]), en + " " + D + ", " + Y, full),
            lambda: (r.choice(["datelongdaymonthuk", "dateshortdaymonthuk", "datedaymonthen"]), D + " " + en, rec),
            lambda: (r.choice(["datelongmonthdayus", "dateshortmonthdayus", "datemonthdayen"]), en + " " + D, rec),
            lambda: (r.choice(["datelongyearmonth", "dateshortyearmonth", "dateyearmonthen"]), Y + " " + en, my),
            lambda: (r.choice(["datelongmonthyear", "dateshortmonthyear", "datemonthyearen"]), en + " " + Y, my),
            lambda: ("datedaymonthdk", D + ". " + da, rec),
            lambda: ("datedaymonthyeardk", D + ". " + da + " " + Y, full),
            lambda: ("datemonthyeardk", da + " " + Y, my),
        ])()
    if k < 0.95:
        while True:
            e = r.choice(M.ERAS)
            lo = date.fromisoformat(e[3])
            hi_ = date.fromisoformat(e[4] or "2045-12-31")
            t = date.fromordinal(r.choice([lo.toordinal(), hi_.toordinal(), r.randint(lo.toordinal(), hi_.toordinal()), r.randint(lo.toordinal(), hi_.toordinal())]))
            yy = t.year - e[2] + 1
            ys = "元" if yy == 1 and r.random() < 0.7 else str(yy)
            w = r.choice([str, lambda s: s.translate(M.WIDE)])
            sp = r.choice(["", "", " "])
            x = r.choice(e[:2]) + sp + w(ys) + sp + "年" + w(str(t.month)) + "月"
            if r.random() < 0.6:
                return r.choice(["date-jpn-era-year-month-day", "dateerayearmonthdayjp"]), x + w(str(t.day)) + "日", t.isoformat()
            return r.choice(["date-jpn-era-year-month", "dateerayearmonthjp"]), x, t.isoformat()[:7]
    while True:
        Y, m, d = r.randint(1900, 1975), r.randint(1, 12), r.choice([1, 30, 31, r.randint(1, 30)])
        t = M.saka(Y, m, d)
        if t:
            ys = str(Y)
            if t.year >= 2001 and Y < 2000 and t.year <= 2060 and r.random() < 0.25 and 1924 <= Y:
                ys = ys[2:]
            return r.choice(["date-ind-day-monthname-year-hi", "calindaymonthyear"]), hi(r, str(d)) + " " + r.choice(M.SAKA[m - 1]) + " " + hi(r, ys), t.isoformat()


def hi(r, s):
    return s.translate(M.DEVA) if r.random() < 0.5 else s


def fixed(r):
    return r.choice([("fixed-true", "true"), ("booleantrue", "true"), ("fixed-false", "false"), ("booleanfalse", "false"), ("fixed-empty", ""), ("nocontent", "")])


def broken(r):
    return r.choice([
        ("date-day-month-year", r.choice(["31.02.2020", "30-02-2021", "32.1.2020", "1.13.2020", "29.2.2021", "0.1.2020", "1.2", "x"])),
        ("date-month-day-year", r.choice(["13/01/2020", "2/30/2020", "1/2020"])),
        ("date-year-month-day", r.choice(["2021-02-29", "2020-00-10", "2020-1"])),
        ("date-day-monthname-year-en", r.choice(["31 June 2020", "5 Ottobre 2020", "June 5 2020", "5 June"])),
        ("date-day-monthname-year-de", r.choice(["31. April 2020", "5. Avril 2020"])),
        ("date-day-month", r.choice(["31.4", "30-2", "12.13"])),
        ("date-monthname-day-en", r.choice(["February 30", "Nonsense 3"])),
        ("date-year-month", r.choice(["2020-13", "2020"])),
        ("date-month-year", r.choice(["13.2020", "00 2020"])),
        ("date-day-monthroman", r.choice(["5 IL", "31 IV"])),
        ("date-jpn-era-year-month-day", r.choice(["平成40年1月1日", "令和1年1月5日", "2020年1月1日"])),
        ("date-jpn-era-year-month", r.choice(["平成40年2月", "昭和5年13月"])),
        ("date-ind-day-monthname-year-hi", r.choice(["32 Chaitra 1942", "5 January 1942"])),
        ("date-day-monthname-xx", "5 May"),
    ])


def run(p, env):
    r = random.Random(p["s"])
    body, want, bad = "", {}, {}
    seen = Counter()
    for i in range(p["n"]):
        k = r.random()
        fid = f"t{i}"
        if k < 0.08:
            f, t = broken(r)
            bad[fid] = (f, t)
            c = "Date"
        elif k < 0.16:
            (f, v), t, c = fixed(r), r.choice(["x", "☒", "n/a", "yes", "", "no"]), "Flag"
            want[fid] = (v, f, t)
        else:
            f, t, v = dmy(r)
            want[fid] = (v, f, t)
            c = {4: "Day", 7: "Month", 10: "Date"}.get(len(v), "Day") if not v.startswith("--") else "Day"
        seen[f] += 1
        x = escape(t, quote=False)
        if r.random() < 0.1 and len(t) > 3:
            j = r.randint(1, len(t) - 1)
            x = escape(t[:j], quote=False) + r.choice(["<!-- c -->", "<b></b>"]) + "<span>" + escape(t[j:], quote=False) + "</span>"
        ws = r.choice(["", "", " ", "\n    ", "\u00a0"])
        body += r.choice(["<p>%s</p>", "<td>%s</td>", "<p>on %s (unaudited)</p>"]) % f'<ix:nonNumeric id="{fid}" contextRef="c" name="d:{c}" format="ixt:{f}">{ws}{x}{ws}</ix:nonNumeric>'
    fl = Filing.open(ixdoc.write(env.dir(), body, tr=p["tr"], first=p["first"]))
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if set(got) != set(want) | set(bad):
        raise Violation("dates:facts", f"facts {sorted(set(got) ^ (set(want) | set(bad)))[:5]} missing or added")
    where = set()
    errs = {}
    for e in fl.get_all_errors():
        where.add(e.get_context().get("id"))
        errs[e.get_context().get("id")] = f"{e.get_full_error_code()}: {e.get_message()}"
    for k, (v, f, t) in want.items():
        if got[k] != v:
            raise Violation(f"dates:value:{f}", f"text {t!r} in format {f}: value {got[k]!r}, expected {v!r}")
        if k in where:
            raise Violation(f"dates:false-error:{f}", f"text {t!r} in format {f}: {errs[k]}"[:400])
    for k, (f, t) in bad.items():
        if k not in where:
            raise Violation(f"dates:no-error:{f}", f"text {t!r} in format {f} gives {got[k]!r} and no error")
    return Obs(key_of(p["s"], p["n"]), bool(want), dates=len(want), malformed=len(bad), japanese=sum("jp" in f for f in seen), indian=sum(f.startswith("date-ind") or f == "calindaymonthyear" for f in seen),
               roman=sum("roman" in f for f in seen))


def g(r):
    return {"s": r.randrange(1 << 40), "n": r.choice([1, 10, 30, 40]), "tr": r.choice([1, 2, 3, 4, 5]), "first": r.random() < 0.5}


SPEC = dict(probes=[Probe("dates", 2500, 60000, g, run)],
            rule="distinct documents with dates or fixed values",
            minimum={"dates": 30000, "malformed": 2500, "japanese": 1500, "indian": 1500, "roman": 400})
