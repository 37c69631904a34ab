"""Entry points: a file, several files, a folder and an archive denote the same report."""
from snap import *
import random
import zipfile
import copy


def g(r):
    c = case(r, {"subdirs": r.choice([0.0, 0.7]), "facts": (1, 8)})
    c["instances"] = r.choice([1, 1, 2, 3])
    c["how"] = r.choice(["folder", "zip", "file", "folder", "zip"])
    c["seed"] = r.randrange(1 << 30)
    c["catalog"] = r.random() < 0.4
    return c


def split_instances(sp, k, r):
    """k instances over one taxonomy; contexts and units of equal id but different content are allowed between documents"""
    if k == 1:
        return [sp]
    out = []
    for i in range(k):
        s = copy.deepcopy(sp)
        s["inst"] = ["inst-%d.xml", "sub/inst%d.xml", "r%d/report.xml", "v%d.0/report.xml", "_r%d/_inst.xml", "my report (%d)/a+b.xml"][r.randrange(6)] % i if i else sp["inst"]
        for u in s["units"]:
            r.shuffle(u["num"])
        if i:
            # the same ids denote other things in the other documents
            perm = list(range(len(s["contexts"])))
            r.shuffle(perm)
            ids = [c["id"] for c in s["contexts"]]
            for c, j in zip(s["contexts"], perm):
                c["id"] = ids[j]
            uids = [u["id"] for u in s["units"]]
            r.shuffle(uids)
            for u, j in zip(s["units"], uids):
                u["id"] = j
            for f in s["facts"]:
                if r.random() < 0.5 and not f["nil"]:
                    f["value"] += str(i)
            # ids of facts are only unique within a document, and footnotes refer to them
            for n, f in enumerate(s["facts"]):
                if f["id"]:
                    f["id"] = f["id"] if r.random() < 0.3 else f"{f['id']}.d{i}"
        out.append(s)
    return out


def recode(data, old, new):
    enc = "utf-16" if data[:2] in (b"\xff\xfe", b"\xfe\xff") else "utf-8-sig" if data[:3] == b"\xef\xbb\xbf" else "utf-8"
    return data.decode(enc).replace(old, new).encode(enc)


def run(p, env):
    r = random.Random(p["seed"])
    sp = spec_of(p)
    insts = split_instances(sp, p["instances"] if p["how"] != "file" else 1, r)
    files = {}
    for s in insts:
        files.update(render.render(s, p["style"]))
    cat = False
    if p["catalog"] and p["how"] != "zip":
        # the schemas are referred to by a web address that a catalog maps into the package
        cat = True
        st = dict(p["style"], abs_prefix="")
        for s in insts:
            for k, sc in enumerate(s["schemas"]):
                files[s["inst"]] = recode(files[s["inst"]], f'href="{render.rel(sc["file"], s["inst"])}"', f'href="http://nowhere.invalid/tax/{sc["file"]}"')
        base = r.choice(["http://nowhere.invalid/tax/", "http://nowhere.invalid/tax/http://nowhere.invalid/tax/", "http://nowhere.invalid/tax/x/http://nowhere.invalid/", "http://nowhere.invalid/tax/tax/"])
        for s in insts:
            files[s["inst"]] = recode(files[s["inst"]], "http://nowhere.invalid/tax/", base)
        rules = [(base, "../")]
        for k in range(1, len(base)):
            if r.random() < 0.1:
                rules.append((base[:k], f"../wrong{k}/"))
        rules.append((r.choice([base + "zz", base.upper(), base[1:], base + base]), "../wrong/"))
        r.shuffle(rules)
        files["META-INF/catalog.xml"] = ('<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">' + "".join(f'<rewriteURI uriStartString="{a}" rewritePrefix="{b}"/>' for a, b in rules) + "</catalog>").encode()
    d = env.dir("pkg")
    render.write(files, d)
    if p["how"] == "zip":
        path = os.path.join(env.dir(), "pkg.zip")
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
            for k in sorted(files, key=lambda k: r.random()):
                z.writestr(k, files[k])
    elif p["how"] == "folder" or cat:
        path = d + r.choice(["", "/"])
    else:
        path = os.path.join(d, sp["inst"])
    # the working directory makes no difference, and paths may be relative to it
    here = os.getcwd()
    try:
        if p["seed"] % 3 == 0:
            os.chdir(r.choice([os.path.dirname(d), d, env.dir(), "/"]))
            if p["seed"] % 2:
                path = os.path.relpath(path) + ("/" if path.endswith("/") else "")
        fl = Filing.open(path)
        o = full(fl)
    finally:
        os.chdir(here)
    m = want(insts[0])
    m["facts"] = sorted(x for s in insts for x in want(s)["facts"])
    foot = Counter()
    for s in insts:
        foot += model.m_physical(s)["foots"]
    m["physical"]["foots"] = foot
    check("package:" + p["how"], o, m, f"{len(insts)} instances, catalog {cat}: {sorted(files)}")
    return Obs(key_of(p), True, facts=len(m["facts"]), instances=len(insts), **{p["how"]: 1, "catalogs": int(cat)})


SPEC = dict(
    rule="random packages of one to three instances over one taxonomy (instances reuse ids for other contexts and units), opened as a file, a folder or a zip archive, with or without a catalog rewriting web addresses into the package; compared in full with the union of the instances; non-trivial always",
    assumptions=["fact ids are unique over the documents of a package that has footnotes", "catalogs lie in META-INF of a folder"],
    minimum={"folder": 50, "zip": 50, "file": 20, "catalogs": 50},
    probes=[Probe("packages", 3000, 30000, g, run)])
