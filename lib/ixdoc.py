"""A small inline document made of given tagged pieces, with a schema that has one concept of each kind."""
import os
import re

from ix import IX, XHTML

NS = "http://example.org/ixd"
TYPES = {"Num": "monetaryItemType", "Dec": "decimalItemType", "Text": "stringItemType", "Date": "dateItemType", "Month": "gYearMonthItemType", "Day": "gMonthDayItemType", "Flag": "booleanItemType"}
TR = {1: "http://www.xbrl.org/2008/inlineXBRL/transformation", 2: "http://www.xbrl.org/inlineXBRL/transformation/2011-07-31",
      3: "http://www.xbrl.org/inlineXBRL/transformation/2015-02-26", 4: "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12",
      5: "http://www.xbrl.org/inlineXBRL/transformation/2022-02-16"}

SCHEMA = ('<?xml version="1.0"?>\n<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:d="%s" targetNamespace="%s">\n%s</xs:schema>\n'
          % (NS, NS, "".join(f'<xs:element id="d_{n}{i}" name="{n}{i}" type="xbrli:{t}" substitutionGroup="xbrli:item" xbrli:periodType="instant" nillable="true"/>\n'
                             for n, t in TYPES.items() for i in ["", "2"])))

HEAD = ('<html xmlns="%s" xmlns:ix="%s" xmlns:ixt="%s" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
        'xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:d="' + NS + '"><head><title>t</title></head><body>')
RES = ('<div style="display:none"><ix:header><ix:hidden>%s</ix:hidden><ix:references><link:schemaRef xlink:type="simple" xlink:href="s.xsd"/></ix:references><ix:resources>'
       '<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s.org">E</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>'
       '<xbrli:unit id="u"><xbrli:measure>iso4217:EUR</xbrli:measure></xbrli:unit>%s</ix:resources></ix:header></div>')


def write(d, body, hidden="", resources="", tr=4, name="doc.xhtml", first=True, h=""):
    """first: the header comes before the body text"""
    with open(os.path.join(d, "s.xsd"), "w", encoding="utf-8") as f:
        f.write(SCHEMA)
    res = RES.replace("<ix:hidden>%s</ix:hidden>", "<ix:hidden>%s</ix:hidden>" if hidden else "%s") % (hidden, resources)
    head, res, end = HEAD % (XHTML, IX, TR[tr]), res, "</body></html>"
    if h:       # a prefix for the html elements
        head = head.replace("<html xmlns=", "<html xmlns:h=")
        head, res, end = [re.sub(r"<(/?)(html|head|title|body|div)\b", lambda m: f"<{m[1]}{h}{m[2]}", x) for x in (head, res, end)]
    doc = head + (res + body if first else body + res) + end
    p = os.path.join(d, name)
    with open(p, "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + doc)
    return p
