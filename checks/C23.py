"""Displayed numbers are read as the numbers they show."""
import random
from decimal import Decimal, getcontext
from html import escape

import ixdoc
from common import *

getcontext().prec = 80
APOS = ["'", "`", "´", "’", "′"]
FULL = str.maketrans("0123456789", "０１２３４５６７８９")

# format -> (transformation registry, decimal mark, grouping marks); Inline XBRL Transformation Registry 1 to 4
MARKS = {
    "numcomma": (1, ",", []), "numcommadot": (1, ".", [","]), "numdotcomma": (1, ",", ["."]), "numspacedot": (1, ".", [" "]), "numspacecomma": (1, ",", [" "]),
    "numcommadecimal": (3, ",", [".", " ", "\u00a0"]), "numdotdecimal": (3, ".", [",", " ", "\u00a0"]), "numdotdecimalin": (3, ".", [",", " ", "\u00a0"]),
    "num-comma-decimal": (4, ",", [".", " ", "\u00a0"]), "num-dot-decimal": (4, ".", [",", " ", "\u00a0"]),
    "num-comma-decimal-apos": (5, ",", [".", " ", "\u00a0"] + APOS), "num-dot-decimal-apos": (5, ".", [",", " ", "\u00a0"] + APOS),
    None: (0, ".", []),
}
UNITS = {"numunitdecimal": (3, [",", "."]), "numunitdecimalin": (3, [",", "."]), "num-unit-decimal": (4, [",", "."]), "num-unit-decimal-apos": (5, [",", "."] + APOS)}
ZERO = {"numdash": 1, "zerodash": 3, "fixed-zero": 4}


def grouped(r, w, seps):
    k = r.random()
    if not seps or k < 0.3 or len(w) < 3:
        return w
    sep = r.choice(seps)
    if k < 0.8:
        first = len(w) % 3 or 3
        parts = [w[:first]] + [w[i:i + 3] for i in range(first, len(w), 3)]
    else:                               # lakh and crore
        head, tail = w[:-3], w[-3:]
        first = len(head) % 2 or 2
        parts = ([head[:first]] + [head[i:i + 2] for i in range(first, len(head), 2)] if head else []) + [tail]
    return sep.join(parts)


def number(r):
    """(format, registries that have it, text, digits as Decimal)"""
    k = r.random()
    digits = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 9, 12, 18, 25])
    whole = "".join(r.choice("0123456789") for _ in range(digits))
    if r.random() < 0.6:
        whole = whole.lstrip("0") or "0"
    if r.random() < 0.2:
        whole = whole[0] + "0" * (digits - 1)
    if k < 0.1:
        f = r.choice(list(ZERO))
        return f, r.choice(["-", "–", "—", "nil", "none", "0", "", "―"]) or "-", Decimal(0)
    if k < 0.3:
        f = r.choice(list(UNITS))
        cents = r.choice(["00", "05", "5", "50", "99", "0", "7", "10", "43"])
        t, c = grouped(r, whole, UNITS[f][1]), cents
        if r.random() < 0.2:
            t, c = t.translate(FULL), c.translate(FULL)
            if r.random() < 0.5:
                t = t.replace(",", "，").replace("'", "＇")
        between = r.choice([" USD ", "円", " euro en ", " £", " dollars and ", "ルピー", " Rs. ", "€"])
        return f, t + between + c + r.choice(["", " cents", "銭", " p.", "c"]), Decimal(whole) + Decimal(cents) / 100
    f = r.choice([x for x in MARKS])
    _, mark, seps = MARKS[f]
    frac = r.choice(["", "", "5", "50", "25", "005", "000", "123456789", "10", "0"]) if mark else ""
    t = grouped(r, whole, seps)
    v = Decimal(whole + "." + (frac or "0"))
    if frac and f and "decimal" in f and r.random() < 0.15:
        t, v = "", Decimal("0." + frac)
    return f, t + (mark + frac if frac else ""), v


def broken(r):
    """text that is not a number in the given format"""
    f = r.choice(["num-dot-decimal", "num-comma-decimal", "numdotdecimal", "numcommadecimal", "num-unit-decimal", None])
    if f == "num-unit-decimal":
        return f, r.choice(["12", "abc", "12,50", "twelve dollars", "USD 5", "12 dollars"])
    mark = "," if f and "comma" in f else "."
    other = "." if mark == "," else ","
    return f, r.choice(["12a", "a12", f"1{mark}2{mark}3", f"1{mark}234{other}567" if f else "1,234", "-12" if f else "--12", "(12)", "12%", "one", "12€", "$12", "1e5" if f else "e5", "½"])


def decorate(r, t):
    """the same text as markup"""
    out = ""
    for ch in t:
        k = r.random()
        if k < 0.03:
            out += f"&#{ord(ch)};"
        elif k < 0.06 and ch not in "]>":
            out += f"<![CDATA[{ch}]]>"
        else:
            out += escape(ch, quote=False)
        if r.random() < 0.02:
            out += "<!-- 1 -->"
    return out


def run(p, env):
    r = random.Random(p["s"])
    body, want, bad, seen = "", {}, {}, Counter()
    for i in range(p["n"]):
        is_bad = r.random() < 0.12
        if is_bad:
            f, t = broken(r)
            v = None
        else:
            f, t, v = number(r)
        ws = r.choice(["", "", "", " ", "\n  ", "\u00a0"]) if f else ""
        scale = r.choice([None, None, "0", "3", "6", "-2", "1", "2", "9", "-6", "12", "-15", "+3"])
        sign = r.choice([None, None, None, "-"])
        A = f'contextRef="c" unitRef="u" decimals="{r.choice(["0", "INF", "2", "-3"])}"'
        A += (f' format="ixt:{f}"' if f else "") + (f' scale="{scale}"' if scale is not None else "") + (f' sign="{sign}"' if sign else "")
        depth = r.choice([0, 0, 0, 0, 1, 2]) if not is_bad else 0
        inner = ws + decorate(r, t) + r.choice(["", ws])
        # around a nested number only the sign may differ
        x = inner
        for d in range(depth + 1):
            a = A if d == 0 else A.replace(' sign="-"', "") + (' sign="-"' if (sg := r.random() < 0.3) else "")
            neg = (sign == "-") if d == 0 else sg
            fid = f"n{i}_{d}"
            x = f'<ix:nonFraction id="{fid}" name="d:{r.choice(["Num", "Dec"])}{"" if d == 0 else "2"}" {a}>{x}</ix:nonFraction>'
            if is_bad:
                bad[fid] = (f, t)
            else:
                e = v.scaleb(int(scale or 0)) if f not in ZERO else Decimal(0)
                want[fid] = (-e if neg else e, f, t, scale)
        seen[f or "plain"] += 1
        body += r.choice(["<p>%s</p>", "<td>%s</td>", "<p>EUR %s thousand</p>", "<p>5%s6</p>"]) % x
    fl = Filing.open(ixdoc.write(env.dir(), body, tr=p["tr"], first=p["first"]))
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if set(got) != set(want) | set(bad):
        raise Violation("numbers:facts", f"facts {sorted(set(got) ^ (set(want) | set(bad)))[:5]} missing or added")
    for k, (v, f, t, sc) in want.items():
        try:
            d = Decimal(got[k])
        except Exception:
            raise Violation(f"numbers:value:{f}", f"text {t!r} in format {f} scale {sc}: value {got[k]!r}, expected {v}")
        if d != v or any(ch not in "-.0123456789" for ch in got[k]):
            raise Violation(f"numbers:value:{f}", f"text {t!r} in format {f} scale {sc}: value {got[k]!r}, expected {v}")
    codes = Counter()
    where = set()
    for e in fl.get_all_errors():
        where.add(e.get_context().get("id"))
        codes[str(e.get_full_error_code())] += 1
        if e.get_context().get("id") not in bad:
            raise Violation("numbers:false-error", f"{e.get_full_error_code()}: {e.get_message()}"[:400])
    for k, (f, t) in bad.items():
        if k not in where:
            raise Violation("numbers:no-error", f"text {t!r} in format {f} gives {got[k]!r} and no error")
    return Obs(key_of(p["s"], p["n"]), bool(want), numbers=len(want), nested=sum(k[-2:] != "_0" for k in want), malformed=len(bad), **{"fmt_" + k: v for k, v in seen.items()})


def g(r):
    return {"s": r.randrange(1 << 40), "n": r.choice([1, 10, 30, 30, 60]), "tr": r.choice([1, 2, 3, 4, 5]), "first": r.random() < 0.5}


SPEC = dict(probes=[Probe("numbers", 2500, 60000, g, run)],
            rule="distinct documents with numbers",
            minimum={"numbers": 40000, "nested": 4000, "malformed": 3000, "fmt_num-unit-decimal-apos": 500, "fmt_numcomma": 500})
