from slices import *

XSD = '''<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" xmlns:p="http://x.invalid/%(n)s" targetNamespace="http://x.invalid/%(n)s">
<xs:element name="SomeAxis" id="%(n)s_SomeAxis" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrli:periodType="instant"/>
<xs:element name="SomeMember" id="%(n)s_SomeMember" type="nonnum:domainItemType" substitutionGroup="xbrli:item" abstract="true" xbrli:periodType="instant"/>
<xs:element name="Amount" id="%(n)s_Amount" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>
</xs:schema>'''
INST = '''<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:a="http://x.invalid/a" xmlns:b="http://x.invalid/b">
<link:schemaRef xlink:type="simple" xlink:href="a.xsd"/><link:schemaRef xlink:type="simple" xlink:href="b.xsd"/>
<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s">e</xbrli:identifier><xbrli:segment>
<xbrldi:explicitMember dimension="a:SomeAxis">a:SomeMember</xbrldi:explicitMember><xbrldi:explicitMember dimension="b:SomeAxis">b:SomeMember</xbrldi:explicitMember>
</xbrli:segment></xbrli:entity><xbrli:period><xbrli:instant>2020-01-01</xbrli:instant></xbrli:period></xbrli:context>
<a:Amount id="f" contextRef="c">1</a:Amount></xbrli:xbrl>'''


def same_printed_name(p, env):
    """two dimensions of two namespaces that the schemas give the same prefix"""
    d = env.dir()
    render.write({"a.xsd": (XSD % {"n": "a"}).encode(), "b.xsd": (XSD % {"n": "b"}).encode(), "i.xml": INST.encode()}, d)
    f = Filing.open(d + "/i.xml").get_all_facts()[0]
    want = {"{http://x.invalid/a}SomeAxis": ["E", "{http://x.invalid/a}SomeMember"], "{http://x.invalid/b}SomeAxis": ["E", "{http://x.invalid/b}SomeMember"]}
    got = observe.obs_fact(f)["dims"]
    if got != want:
        raise Violation("dims:same-printed-name" if len(got) == 1 and list(got.items())[0] in want.items() else "dims:content", f"{got} for {want}")
    return Obs("same-printed-name", True)


SPEC = dict(
    rule="random filings whose contexts carry explicit and typed dimensions in segments and scenarios; non-trivial when some fact has a dimension",
    assumptions=["valid XBRL 2.1 documents; the expected content comes from the abstract description the documents are rendered from"],
    minimum={"explicit": 300, "typed": 100},
    probes=[Probe("random", 1200*4, 25000*2, generator({"p_dims": 1.0, "dims": (1, 4), "members": (2, 6), "typed": (0, 2), "contexts": (2, 8), "p_scenario": 0.4}, {"p_dims": 0.7, "typed": (1, 3), "schemas": (2, 3)}), make(s_dims)),
            Probe("same-printed-name", 1, 1, None, same_printed_name, fixed=[{}])])
