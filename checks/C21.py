"""Values of facts: the Python value a fact gives is the one its text denotes in the data type of its concept."""
from slices import *
import decimal
import math
from fractions import Fraction

XN = {"integer": "integer nonPositiveInteger negativeInteger long int short byte nonNegativeInteger unsignedLong unsignedInt unsignedShort unsignedByte positiveInteger",
      "number": "decimal float double monetary shares pure",
      "boolean": "boolean",
      "text": "string hexBinary base64Binary anyURI QName duration dateTime time date gYearMonth gYear gMonthDay gDay gMonth normalizedString token language Name NCName"}
DTR = {"number": "percent perShare area volume mass weight energy power length memory nonNegativeMonetary insolation temperature pressure frequency irradiance speed planeAngle voltage electricCurrent force electricCharge flow massFlow monetaryPerLength monetaryPerArea monetaryPerVolume monetaryPerDuration monetaryPerEnergy monetaryPerMass ghgEmissions energyPerMonetary ghgEmissionsPerMonetary volumePerMonetary perUnit",
       "integer": "noDecimalsMonetary nonNegativeNoDecimalsMonetary",
       "text": "escaped xmlNodes xml textBlock guidance noLangToken noLangString prefixedContent gYearList"}
TYPES = [(k, "xbrli", n + "ItemType") for k, v in XN.items() for n in v.split()] + [(k, "num" if k != "text" else "dtr", n + "ItemType") for k, v in DTR.items() for n in v.split()]
NEG = {"nonPositiveIntegerItemType", "negativeIntegerItemType"}
POS = {"nonNegativeIntegerItemType", "positiveIntegerItemType", "unsignedLongItemType", "unsignedIntItemType", "unsignedShortItemType", "unsignedByteItemType", "nonNegativeMonetaryItemType", "nonNegativeNoDecimalsMonetaryItemType"}


def lexical(r, kind, t):
    sign = "-" if t in NEG else "" if t in POS else r.choice(["", "", "-", "+"])
    n = r.choice([str(r.randrange(1, 10)), str(r.randrange(10 ** 6)), str(r.randrange(10 ** 15, 10 ** 24)), "0" * r.randrange(3) + str(r.randrange(1, 1000)), "9007199254740993"])
    if kind == "integer":
        return sign + n
    if kind == "number":
        v = r.choice([n, n + "." + str(r.randrange(1000)), "." + str(r.randrange(1000)), n + ".", "0.1", "0.30000000000000004", n + ".50"])
        if t in ("floatItemType", "doubleItemType") and r.random() < 0.4:
            return r.choice(["INF", "-INF", "NaN", "1E4", "-1.5e-3", "12.78e+2", "0", "-0"])
        return sign + v
    if kind == "boolean":
        return r.choice(["true", "false", "1", "0"])
    return r.choice(["12", "-3", "1.0", "true", "1", "abc", "a b", "2020-01-01", "INF", "ä", "0x1", "1,000", "12 %", "None", "--12-25", "P1Y"])


def g(r):
    fs = []
    for i in range(r.randint(4, 14)):
        k, pre, t = r.choice(TYPES)
        fs.append([k, pre, t, lexical(r, k, t), r.choice(["", "", "", "", " ", "\n  "]) if k != "text" else ""])
    return {"facts": fs, "pre": r.choice(["xbrli", "x", ""])}


def attempt(f, *a):
    try:
        return ("value", f(*a))
    except ValueError:
        return ("ValueError",)


def want_of(kind, v):
    if kind == "integer":
        return int(v)
    if kind == "number":
        return {"INF": math.inf, "-INF": -math.inf, "NaN": math.nan}.get(v) if v.lstrip("-") in ("INF", "NaN") else float(Fraction(decimal.Decimal(v)))
    if kind == "boolean":
        return v in ("true", "1")
    return v


def eq(a, b):
    return type(a) is type(b) and (a == b or (isinstance(a, float) and math.isnan(a) and math.isnan(b)))


def run(p, env):
    x = p["pre"] + ":" if p["pre"] else ""
    xn = "xmlns" + (":" + p["pre"] if p["pre"] else "")
    els, facts = "", ""
    for i, (k, pre, t, v, ws) in enumerate(p["facts"]):
        pr = {"xbrli": x, "num": "num:", "dtr": "dtr:"}[pre]
        els += f'<xs:element name="C{i}" id="c{i}" type="{pr}{t}" substitutionGroup="{x}item" xb:periodType="instant"/>'
        u = ' unitRef="u" decimals="INF"' if k in ("integer", "number") else ""
        facts += f'<t:C{i} contextRef="c" id="f{i}"{u}>{ws}{v}{ws}</t:C{i}>'
    ns = f'{xn}="{render.XBRLI}" xmlns:xb="{render.XBRLI}" xmlns:xs="{render.XS}" xmlns:num="{render.TYPES}" xmlns:dtr="{render.DTR}" xmlns:link="{render.LINK}" xmlns:xlink="{render.XLINK}" xmlns:t="urn:t"'
    d = env.dir()
    render.write({"t.xsd": f'<xs:schema {ns} targetNamespace="urn:t">{els}</xs:schema>'.encode(),
                  "i.xml": f'<xb:xbrl {ns}><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/><xb:context id="c"><xb:entity><xb:identifier scheme="s">e</xb:identifier></xb:entity><xb:period><xb:instant>2020-01-01</xb:instant></xb:period></xb:context><xb:unit id="u"><xb:measure>xb:pure</xb:measure></xb:unit>{facts}</xb:xbrl>'.encode()}, d)
    fl = Filing.open(os.path.join(d, "i.xml"))
    by = {f.get_id(): f for f in fl.get_all_facts()}
    must_equal("value:facts", len(by), len(p["facts"]))
    for i, (k, pre, t, v, ws) in enumerate(p["facts"]):
        f = by[f"f{i}"]
        c = f.get_concept()
        got = [bool(c.is_integer()), bool(c.is_numeric()), bool(c.is_boolean()), bool(c.is_textual()) if k != "boolean" else False]
        must_equal("value:classification", got, [k == "integer", k in ("integer", "number"), k == "boolean", k == "text"], t)
        text = ws + v + ws
        if str(f) != text or f.get_value_as_str() != text:
            raise Violation("value:text", f"{t}: {str(f)!r} for {text!r}")
        w = want_of(k, v)
        o = attempt(f.get_value)
        if o[0] != "value" or not eq(o[1], w):
            raise Violation("value:typed", f"{t} {text!r}: get_value gives {o}, expected {w!r}")
        if k == "integer":
            must_equal("value:int", attempt(int, f), ("value", int(v)), f"{t} {text!r}")
            must_equal("value:int", attempt(f.get_value_as_int), ("value", int(v)), f"{t} {text!r}")
        if k in ("integer", "number"):
            for conv in (float, lambda f: f.get_value_as_float()):
                o = attempt(conv, f)
                if o[0] != "value" or not eq(o[1], want_of("number", v)):
                    raise Violation("value:float", f"{t} {text!r}: {o}")
        if k == "boolean":
            must_equal("value:bool", attempt(bool, f), ("value", w), f"{t} {text!r}")
            must_equal("value:bool", attempt(f.get_value_as_bool), ("value", w), f"{t} {text!r}")
        # text that is no number or boolean is refused
        if v in ("abc", "a b", "2020-01-01", "0x1", "1,000", "12 %", "ä", "None", "true", "P1Y", "false"):
            must_equal("value:refused-int", attempt(int, f), ("ValueError",), text)
            must_equal("value:refused-float", attempt(float, f), ("ValueError",), text)
        if v in ("1.0", "INF"):
            must_equal("value:refused-int", attempt(int, f), ("ValueError",), text)
        if v not in ("true", "false", "1", "0") and k != "number" and k != "integer":
            must_equal("value:refused-bool", attempt(bool, f), ("ValueError",), text)
        if v in ("2", "-1", "abc"):
            must_equal("value:refused-bool", attempt(bool, f), ("ValueError",), text)
    return Obs(key_of(p), True, facts=len(by), **{k: sum(x[0] == k for x in p["facts"]) for k in ("integer", "number", "boolean", "text")})


SPEC = dict(
    rule="instances of concepts of every item type of XBRL 2.1 and the data types registry, with values in all lexical forms (signs, leading zeros, beyond 64 bits, exponents, infinities, whitespace) opened and every conversion of every fact compared with exact arithmetic; always non-trivial",
    assumptions=["values are valid for their data type; derived types declared by a taxonomy count as text"],
    minimum={"integer": 2000, "number": 4000, "boolean": 100, "text": 2000},
    probes=[Probe("values", 2500, 25000, g, run)])
