"""A catalog says where the addresses of a package are found; its defects are reported."""
import random
import zipfile

import C12
from C27 import check_lists, code_of
from common import *
from httpd import Server
from render import LINK, XBRLI, XLINK, rel

CAT = "urn:oasis:names:tc:entity:xmlns:xml:catalog"
XH = ('<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:xbrli="%s" xmlns:link="%s" xmlns:%s="%s"><head><title>t</title></head><body>'
      '<div style="display:none"><ix:header><ix:references>%s</ix:references><ix:resources/></ix:header></div><p>text</p></body></html>')


def g(r):
    g = C12.gen_graph(r, True)
    for d in g["docs"]:
        d["path"] = d["path"].replace(" ", "-").replace("ü", "u").replace("Ü", "U")
    g["style"]["dot"] = False
    g["inst"] = r.choice(["", "reports/", "a/b/"]) + r.choice(["inst.xml", "inst.xml", "inst.xhtml"])
    g["how"] = r.choice(["zip", "folder", "zip"])
    g["top"] = r.choice(["", "", "pkg-1.0/"])
    g["damage"] = r.choice([None, None, None, "root", "missing", "double", "missing double"])
    g["decoy"] = r.random() < 0.2
    g["relrefs"] = r.choice([0.0, 0.3, 0.7])
    return g


def longest(rules, u):
    fit = [k for k in rules if u.startswith(k)]
    return max(fit, key=len) if fit else None


def run(g, env):
    r = random.Random(g["seed"])
    docs = g["docs"]
    with Server({}) as srv:
        hosts = [srv.base, "http://nowhere.invalid/", "https://nowhere.invalid/", srv.base + "tax/"]
        # a set of prefixes, most of them the start of some address
        urls = [r.choice(hosts) + r.choice(["", "tax/", "tax/2024/", "x-"]) + d["path"] for d in docs]
        for i in range(len(urls)):
            while urls[i] in urls[:i]:
                urls[i] = srv.base + f"q{r.randrange(1000)}/" + docs[i]["path"]
        rules = {}
        for u in urls:
            if r.random() < 0.7:
                lo = u.index("//") + 3
                cut = r.choice([u.index("/", 8) + 1, r.randrange(lo, len(u) + 1), u.rindex("/") + 1, len(u)])
                if u[cut:] and not u[cut:].endswith((".xsd", ".xml")) or "." not in u[cut:]:
                    cut = len(u)
                if cut == len(u):
                    rules.setdefault(u, r.choice(["../m%d/", "m%d-", srv.base + "moved%d/"]) % len(rules) + r.choice(["doc", os.path.basename(u)[:-4]]) + u[-4:])
                elif u[:cut] not in rules:
                    rules[u[:cut]] = r.choice(["../m%d/", "../deep/m%d/", "m%d/", "../m%d-", "./../m%d/", "../../up/m%d/" if g["top"] else "../m%d/", srv.base + "moved%d/", "../m%d"]) % len(rules)
        for u in urls:
            if u.startswith(("http://nowhere", "https://nowhere")) and longest(rules, u) is None:
                rules[u[:u.index("/", 8) + 1]] = r.choice(["../n%d/", srv.base + "n%d/"]) % len(rules)
        if r.random() < 0.3:
            rules[r.choice([u + "x" for u in urls] + [u[1:] for u in urls] + [u.upper() for u in urls])] = "../wrong/"
        # where the documents are
        place = {}
        for i, u in enumerate(urls):
            k = longest(rules, u)
            if k is not None and not u[len(k):] and rules[k][-4:] != u[-4:]:
                return Obs(key_of(g), False, collisions=1)
            to = u if k is None else rules[k] + u[len(k):]
            if not to.startswith("http"):
                to = os.path.normpath(g["top"] + "META-INF/" + to)
            place[i] = to
        taken = {}
        for i in range(len(docs)):
            if place[i] in taken.values() or place[i].startswith("..") or any(p.startswith(place[i] + "/") or place[i].startswith(p + "/") for p in taken.values()):
                return Obs(key_of(g), False, collisions=1)
            taken[i] = place[i]
        local = lambda i: not place[i].startswith("http")
        inst = g["top"] + g["inst"]
        xl = g["style"]["xl"]

        def ref(j, frm):
            # a relative reference is the same before and after the rewriting only below the prefix of one rule
            if frm is not None and r.random() < g["relrefs"]:
                a, b = urls[frm], urls[j]
                k = longest(rules, a)
                if k == longest(rules, b):
                    base = k if k is not None else srv.base
                    base = base[:base.rindex("/") + 1] if k is not None else base
                    if a.startswith(base) and b.startswith(base) and base.count("/") > 2:
                        t = rel(b[len(base):], a[len(base):])
                        res = os.path.normpath(os.path.join(os.path.dirname(place[frm]), t)) if local(frm) else None
                        if (local(frm) and res == place[j]) or (not local(frm) and os.path.normpath(os.path.join(os.path.dirname(place[frm][7:]), t)) == place[j][7:] and longest(rules, place[j]) is None):
                            return t
            if frm is None and local(j) and r.random() < g["relrefs"]:
                return rel(place[j], inst)
            return urls[j]
        out = {}
        # C12 writes the graph with relative references; every one is replaced by what ref() says
        tmp = dict(g, docs=[dict(d, path=f"D{i}D.{'xsd' if d['kind'] == 's' else 'xml'}", edges=list(d["edges"])) for i, d in enumerate(docs)], inst="I.xml")
        built = C12.build(tmp)

        def put(text, frm):
            for j, d in enumerate(tmp["docs"]):
                parts = text.split(d["path"])
                text = parts[0] + "".join(ref(j, frm) + x for x in parts[1:])
            return text
        for i, d in enumerate(tmp["docs"]):
            out[i] = put(built[d["path"]].decode(), i).encode()
        text = put(built["I.xml"].decode(), None)
        if inst.endswith(".xhtml"):
            text = XH % (XBRLI, LINK, xl, XLINK, text[text.index(">") + 1:text.rindex("</")])
        files = {inst: text.encode()}
        for i in out:
            if local(i):
                files[place[i]] = out[i]
            else:
                srv.files[place[i][len(srv.base):]] = out[i]
        # the catalog
        lines = [[f'<rewriteURI uriStartString="{k}" rewritePrefix="{v}"/>'] for k, v in rules.items()]
        if r.random() < 0.3:
            lines = [[f'<rewriteURI rewritePrefix="{v}" uriStartString="{k}"></rewriteURI>'] for k, v in rules.items()]
        must = []
        dmg = g["damage"] or ""
        if "missing" in dmg:
            bad = r.choice(['<rewriteURI uriStartString="%s"/>', '<rewriteURI rewritePrefix="../wrong/"/>', '<rewriteURI/>', '<rewriteURI uriStartString="" rewritePrefix="../wrong/"/>', '<rewriteURI uriStartString="%s" rewritePrefix=""/>']).replace("%s", r.choice(urls))
            lines.append([bad])
            must.append("REWRITE_URI_MISSING_ATTRIBUTE")
        double = None
        if "double" in dmg and rules:
            double = r.choice(sorted(rules))
            lines.append([f'<rewriteURI uriStartString="{double}" rewritePrefix="{rules[double]}"/>'])
            must.append("MULTIPLE_REWRITE_URIS_FOR_START_STRING")
        r.shuffle(lines)
        root, ns = "catalog", CAT
        if "root" in dmg:
            must.append("INVALID_CATALOG_ROOT_NODE")
            root, ns = r.choice([("katalog", CAT), ("catalog", CAT + "s"), ("rewriteURI", CAT), ("catalog", "")])
        p = r.choice(["", "", "c:"])
        decl = f' xmlns{":" + p[:-1] if p else ""}="{CAT}"'
        body = "\n".join(x[0].replace("<rewriteURI", "<" + p + "rewriteURI").replace("</rewriteURI", "</" + p + "rewriteURI") for x in lines)
        body = r.choice(["", "<!-- <rewriteURI uriStartString='http' rewritePrefix='../wrong/'/> -->", "<other xmlns='urn:x' uriStartString='http' rewritePrefix='../wrong/'/>"]) + body
        if "root" in dmg:
            cat = f'<{root} xmlns="{ns}"><!-- -->' + body.replace("<" + p + "rewriteURI", f'<{p}rewriteURI{decl}') + f"</{root}>" if ns != CAT else f'<{p}{root}{decl}>{body}</{p}{root}>'
        else:
            cat = f"<{p}catalog{decl}>{body}</{p}catalog>"
        files[g["top"] + "META-INF/catalog.xml"] = cat.encode()
        if g["decoy"]:      # the catalog of a package within the package says nothing about this one
            files[g["top"] + "META-INF/inner/META-INF/catalog.xml"] = f'<catalog xmlns="{CAT}">{"".join(f"<rewriteURI uriStartString={chr(34)}{u}{chr(34)} rewritePrefix={chr(34)}../wrong/{chr(34)}/>" for u in urls)}</catalog>'.encode()
        if g["how"] == "zip":
            path = os.path.join(env.dir(), "p.zip")
            with zipfile.ZipFile(path, "w") as z:
                for k in sorted(files, key=lambda k: r.random()):
                    z.writestr(k, files[k])
            loaded = {i for i in range(len(docs)) if local(i) and place[i].endswith(".xml")}
        else:
            path = env.dir("pkg")
            render.write(files, path)
            loaded = {i for i in range(len(docs)) if local(i) and place[i].endswith((".xml", ".xsd"))}
        what = f"rules {rules}, addresses {urls}, places {place}, entry {g['entry']}, damage {g['damage']}, {g['how']} {sorted(files)}"
        if "root" in dmg:
            # what a catalog says that is none is not defined; the addresses may be looked for where they are
            try:
                fl = Filing.open(path)
            except (OSError, KeyError, ValueError):
                raise Violation("catalog:root-opening", what)
            codes = [e.get_full_error_code() for e in check_lists(fl)]
            if code_of("INVALID_CATALOG_ROOT_NODE") not in codes:
                raise Violation("catalog:defect-not-reported", f"{codes}: {what}")
            return Obs(key_of(g), True, defects=1)
        try:
            fl = Filing.open(path)
        except Exception as e:
            raise Violation("catalog:opening", f"{type(e).__name__}: {e}: {what}")
        seen, todo = set(), sorted(loaded) + [j for _, j in g["entry"]]
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo += [j for _, j in tmp["docs"][i]["edges"]]
        must_equal("catalog:elements", sorted(observe.ck(e.get_name()) for e in fl.get_all_report_elements()), sorted("{urn:n%d}E%d" % (i, i) for i in seen if docs[i]["kind"] == "s"), what)
        must_equal("catalog:requests", Counter(srv.take_log()), Counter(place[i][len(srv.base):] for i in seen if not local(i)), what)
        must_equal("catalog:defects", Counter(e.get_full_error_code() for e in check_lists(fl)), Counter(map(code_of, must)), what)
        if double and not any(double in e.get_message() for e in fl.get_all_errors()):
            raise Violation("catalog:message", f"{double} is not named: {what}")
        return Obs(key_of(g), bool(rules), documents=len(seen), rewritten=sum(longest(rules, urls[i]) is not None for i in seen), remote=sum(not local(i) for i in seen),
                   nested=sum(sum(urls[i].startswith(k) for k in rules) > 1 for i in seen), defects=len(must), **{g["how"]: 1})


SPEC = dict(
    rule="random graphs of schemas and link bases that refer to each other by web address or relatively, in a folder or an archive with a catalog of rewriting rules (nested prefixes, relative and web targets, look-alikes, other elements) and partly on a server; elements, requests and errors are compared; non-trivial when there is a rule",
    assumptions=["relative references are only used where they mean the same before and after the rewriting", "every address leads to a document"],
    minimum={"documents": 1000, "rewritten": 500, "remote": 200, "nested": 100, "defects": 100, "zip": 100, "folder": 100},
    probes=[Probe("catalogs", 1500, 12000, g, run)])
