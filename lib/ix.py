"""spec -> the same report written as an inline XBRL document.  Written against Inline XBRL 1.1 and the transformation registries, not against brel."""
import random
from decimal import Decimal

import gen
import render
from render import ISO, LINK, XBRLDI, XBRLI, XLINK, XSI, qa, rel, tx

IX = "http://www.xbrl.org/2013/inlineXBRL"
XHTML = "http://www.w3.org/1999/xhtml"
IXT = "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12"
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def group(r, whole, sep):
    k = r.choice([3, 3, 3, 2])
    out = ""
    while len(whole) > k:
        out = sep + whole[-k:] + out
        whole = whole[:-k]
    return whole + out


def plain(d):
    """Decimal -> digits[.digits] without exponent"""
    s = format(abs(d), "f")
    return s


def show_number(r, value, allow_unit=True, formats=None):
    """a way to display the number: (text, format, scale, sign)"""
    try:
        d = Decimal(value)
    except Exception:
        raise Exception("bad " + repr(value))
    sign = "-" if d < 0 or (d == 0 and r.random() < 0.05) else None
    if d == 0 and r.random() < 0.4:
        return r.choice(["-", "—", "nil", "0"]), r.choice(["ixt:fixed-zero", "ixt:zerodash", "ixt:numdash"]), None, None
    scale = r.choice([0, 0, 3, 6, -2, 2, 1, 9, -3, -6])
    s = plain(d.scaleb(-scale))
    whole, _, frac = s.partition(".")
    frac = frac + "0" * r.choice([0, 0, 0, 1, 2])
    if r.random() < 0.1:
        whole = "0" * r.randint(1, 2) + whole
    f = r.choice([None, "ixt:num-dot-decimal", "ixt:num-comma-decimal", "ixt:numdotdecimal", "ixt:numcommadecimal", "ixt:numcommadot", "ixt:numdotcomma",
                  "ixt:numspacedot", "ixt:numspacecomma", "ixt:numdotdecimalin", "ixt:num-dot-decimal-apos", "ixt:num-comma-decimal-apos", "ixt:num-unit-decimal", "ixt:numunitdecimal"])
    if f in ("ixt:num-unit-decimal", "ixt:numunitdecimal"):
        if not allow_unit or len(frac) > 2:
            f = "ixt:num-dot-decimal"
        else:
            w = group(r, whole, r.choice([",", "."])) if r.random() < 0.5 else whole
            c = (frac + "00")[:2]
            if c[0] == "0" and r.random() < 0.5:
                c = c[1]
            t = w + r.choice([" USD ", " dollars and ", "€ ", " Rupees "]) + c + r.choice(["", " cents", " c", " paise"])
            return t, f, str(scale) if scale or r.random() < 0.2 else None, sign
    if f is None:
        t = whole + ("." + frac if frac else "")
    elif "comma-decimal" in f or f in ("ixt:numcommadecimal", "ixt:numdotcomma", "ixt:numspacecomma"):
        sep = r.choice([".", " ", "\u00a0", ""]) if "numspace" not in f else " "
        if f.endswith("apos"):
            sep = r.choice(["'", "’", "´", "`", "′", sep])
        t = (group(r, whole, sep) if sep else whole) + ("," + frac if frac else "")
    else:
        sep = r.choice([",", " ", "\u00a0", ""]) if "numspace" not in f else " "
        if f.endswith("apos"):
            sep = r.choice(["'", "’", "´", "`", "′", sep])
        t = (group(r, whole, sep) if sep else whole) + ("." + frac if frac else "")
        if frac and whole.strip("0") == "" and r.random() < 0.3 and f.startswith("ixt:num-dot"):
            t = "." + frac
    return t, f, str(scale) if scale or r.random() < 0.2 else None, sign


def show_text(r, typ, v):
    """(text, format) that stands for the value v of a non-numeric type"""
    if typ == "booleanItemType" and r.random() < 0.7:
        return r.choice(["yes", "No", "☒", "☐", "x"]), r.choice(["ixt:fixed-" + v, "ixt:boolean" + v])
    if typ == "dateItemType" and r.random() < 0.8:
        y, m, d = v.split("-")
        k = r.randrange(6)
        di = r.choice([d, str(int(d))])
        mi = r.choice([m, str(int(m))])
        mn = MONTHS[int(m) - 1]
        if k == 0:
            return r.choice([f"{di} {mn} {y}", f"{di} {mn[:3]} {y}", f"{di}. {mn.upper()}, {y}"]), r.choice(["ixt:date-day-monthname-year-en", "ixt:datedaymonthyearen"])
        if k == 1:
            return r.choice([f"{mn} {di}, {y}", f"{mn[:3]} {di} {y}"]), r.choice(["ixt:date-monthname-day-year-en", "ixt:datemonthdayyearen", "ixt:datelongus"])
        if k == 2:
            return r.choice([f"{di}.{mi}.{y}", f"{di}/{mi}/{y}"]), r.choice(["ixt:date-day-month-year", "ixt:datedaymonthyear", "ixt:datedoteu", "ixt:dateslasheu"])
        if k == 3:
            return f"{mi}/{di}/{y}", r.choice(["ixt:date-month-day-year", "ixt:datemonthdayyear", "ixt:dateslashus"])
        if k == 4:
            return r.choice([f"{y}/{mi}/{di}", f"{y}年{mi}月{di}日"]), r.choice(["ixt:date-year-month-day", "ixt:dateyearmonthday", "ixt:dateyearmonthdaycjk"])
        return v, None
    return v, None


def wrap(r, s):
    return r.choice(["<p>%s</p>", "<td>%s</td>", "<div><span class=\"a\">%s</span></div>", "<p>text %s text</p>", "<div>%s</div>", "<p><b>x</b>%s<br/>and more</p>"]) % s


def prepare(sp, iseed, nest=True):
    """a spec whose facts can be displayed; some numbers get a twin that is tagged around them"""
    r = random.Random(f"ix{iseed}")
    E = sp["elements"]
    out = []
    nested = {}
    for f in sp["facts"]:
        t = E[f["c"]]["type"]
        f = dict(f)
        if t in gen.NUMERIC:
            if f["unit"] is None:
                continue
            if f["value"] in ("INF", "-INF", "NaN"):
                f["value"] = "12.5"
            if f["nil"]:
                f["decimals"] = f["precision"] = None
        out.append(f)
        if nest and t in gen.NUMERIC and not f["nil"] and r.random() < 0.15:
            twin = dict(f, id=None, ctx=r.randrange(len(sp["contexts"])), decimals=r.choice(["0", "INF", None]), precision=None)
            nested[len(out)] = len(out) - 1     # the twin is written around the fact
            out.append(twin)
    sp = dict(sp, facts=out, nested=nested)
    sp["inst"] = sp["inst"].rsplit(".", 1)[0] + r.choice([".xhtml"])
    return sp


def norm_value(sp, f, v):
    """the value to compare: numbers as numbers"""
    if sp["elements"][f["c"]]["type"] in gen.NUMERIC and not f["nil"]:
        return ["n", str(Decimal(v).normalize() + 0)]
    return ["t", v]


class Ix:
    def __init__(self, sp, style, iseed):
        self.sp = sp
        self.st = render.St(style)
        self.r = random.Random(f"ixr{iseed}")
        r = self.r
        self.ix = r.choice(["ix", "ix", "ix", "i", "inline"])
        self.ixt = r.choice(["ixt", "ixt", "ixt4", "t"])
        self.html = r.choice(["", "", "h"])
        self.P = lambda si: self.st.inst_prefix.get(str(si), sp["schemas"][si]["prefix"])
        self.st.xbrli = self.st.xbrli or "xbrli"
        self.st.dflt = None

    def attrs(self, A):
        A = [(k, v) for k, v in A if v is not None]
        if self.st.shuffle_attrs:
            self.r.shuffle(A)
        return "".join(f" {k}={qa(v)}" for k, v in A)

    def fmt(self, f):
        return None if f is None else self.st.toka(self.ixt + ":" + f.split(":")[1])

    def fact(self, k):
        sp, r = self.sp, self.r
        f = sp["facts"][k]
        e = sp["elements"][f["c"]]
        A = [("id", f["id"]), ("contextRef", sp["contexts"][f["ctx"]]["id"]), ("name", self.P(e["s"]) + ":" + e["name"])]
        if e["type"] in gen.NUMERIC:
            A.append(("unitRef", sp["units"][f["unit"]]["id"]))
            A += [("decimals", f["decimals"]), ("precision", f["precision"])]
            if f["nil"]:
                return f'<{self.ix}:nonFraction{self.attrs(A + [("xsi:nil", r.choice(["true", "1"]))])}/>'
            if k in sp["nested"]:
                inner, n = self.number(sp["nested"][k])
                fm, sc, sg = n
                return f'<{self.ix}:nonFraction{self.attrs(A + [("format", self.fmt(fm)), ("scale", sc), ("sign", sg)])}>{inner}</{self.ix}:nonFraction>'
            return self.number(k)[0]
        if f["nil"]:
            return f'<{self.ix}:nonNumeric{self.attrs(A + [("xsi:nil", "true")])}/>'
        t, fm = show_text(r, e["type"], f["value"])
        A.append(("format", self.fmt(fm)))
        if f["value"] == "" and r.random() < 0.5:
            A[-1] = ("format", self.ixt + ":" + r.choice(["fixed-empty", "nocontent"]))
            t = "n/a"
        if r.random() < 0.2:
            A.append(("escape", "false"))
        body = render.split_text(self.st, t)
        if t and r.random() < 0.2 and fm is None:
            i = r.randint(0, len(t))
            body = self.st.text(t[:i]) + f"<{self.h('b')}>" + self.st.text(t[i:]) + f"</{self.h('b')}>"
        return f'<{self.ix}:nonNumeric{self.attrs(A)}>{body}</{self.ix}:nonNumeric>'

    def number(self, k):
        sp = self.sp
        f = sp["facts"][k]
        e = sp["elements"][f["c"]]
        t, fm, sc, sg = show_number(self.r, f["value"])
        A = [("id", f["id"]), ("contextRef", sp["contexts"][f["ctx"]]["id"]), ("name", self.P(e["s"]) + ":" + e["name"]), ("unitRef", sp["units"][f["unit"]]["id"]),
             ("decimals", f["decimals"]), ("precision", f["precision"]), ("format", self.fmt(fm)), ("scale", sc), ("sign", sg)]
        return f'<{self.ix}:nonFraction{self.attrs(A)}>{render.split_text(self.st, t)}</{self.ix}:nonFraction>', (fm, sc, sg)

    def h(self, t):
        return self.html + ":" + t if self.html else t

    def hx(self, s):
        """html markup with the prefix of this document"""
        if not self.html:
            return s
        import re
        return re.sub(r"<(/?)(p|td|div|span|b|br|tr|table|body|head|title|html)\b", lambda m: f"<{m[1]}{self.html}:{m[2]}", s)

    def document(self, linkbases, extra_body=None, extra_resources="", split=False):
        sp, st, r = self.sp, self.st, self.r
        fn = sp["inst"]
        xl = st.xlink
        refs = ""
        for si, sc in enumerate(sp["schemas"]):
            if sp.get("schema_refs") is not None and si not in sp["schema_refs"]:
                continue
            refs += st.el("link:schemaRef", [(f"{xl}:type", "simple"), (f"{xl}:href", self.st.toka(rel(sc["file"], fn)))], None, 4)
        if st.lb_from_instance:
            for lb in linkbases:
                refs += st.el("link:linkbaseRef", [(f"{xl}:type", "simple"), (f"{xl}:href", self.st.toka(rel(lb, fn))), (f"{xl}:arcrole", "http://www.w3.org/1999/xlink/properties/linkbase")], None, 4)
        cs = [render.render_context(sp, c, st, self.P) for c in sp["contexts"]] + [render.render_unit(sp, u, st, self.P) for u in sp["units"]]
        if st.ctx_last:
            r.shuffle(cs)
        order = [k for k in range(len(sp["facts"])) if k not in sp["nested"].values()]
        if st.fact_order is not None:
            random.Random(st.fact_order).shuffle(order)
        hidden, body, body2 = "", "", ""
        for k in order:
            s = self.fact(k)
            if r.random() < 0.25:
                hidden += s
                continue
            x = self.hx(wrap(r, "\x00")).replace("\x00", s) + st.nl
            if split and r.random() < 0.5:
                body2 += x
            else:
                body += x
        if extra_body:
            body += extra_body
        i = self.ix
        head = (f"<{i}:hidden>{hidden}</{i}:hidden>" if hidden else "") + f"<{i}:references>{refs}</{i}:references>" + f"<{i}:resources>{''.join(cs)}{extra_resources}</{i}:resources>"
        nsd = [("xmlns" + (":" + self.html if self.html else ""), XHTML), (f"xmlns:{i}", IX), (f"xmlns:{self.ixt}", IXT), ("xmlns:" + st.xbrli, XBRLI), ("xmlns:link", LINK),
               (f"xmlns:{xl}", XLINK), ("xmlns:" + st.xbrldi, XBRLDI), ("xmlns:iso4217", ISO), ("xmlns:xsi", XSI)]
        for si, sc in enumerate(sp["schemas"]):
            nsd.append(("xmlns:" + self.P(si), sc["ns"]))
        hd = f'<div style="display:none">\x01</div>'
        d = f"<html{''.join(f' {k}={qa(v)}' for k, v in nsd)}><head><title>t</title></head><body>\x01\x02</body></html>"
        if split:
            other = st.doc(self.hx(d).replace("\x01", "").replace("\x02", body2))
        doc = st.doc(self.hx(d).replace("\x01", self.hx(hd).replace("\x01", f"<{i}:header>{head}</{i}:header>")).replace("\x02", body))
        return (doc, other) if split else doc


def render_ix(sp, style, iseed, **kw):
    st = render.St(style)
    out, lbs = render.render_taxonomy(sp, st)
    d = Ix(sp, style, iseed).document(lbs, **kw)
    out[sp["inst"]] = d[0] if kw.get("split") else d
    if kw.get("split"):
        out["other" + sp["inst"][sp["inst"].rindex("."):]] = d[1]
    return out
