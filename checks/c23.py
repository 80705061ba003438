"""C23: the tree of a NXDL file is what the nxdlformat.xsl of its category (default file set) makes of it"""
import os
import random
import shutil

import lxml.etree

from checks import c20
from vlib import common, filesets, nxdlgen

RULE = ("NXDL files (bundled, random, also not valid ones, other encodings, changed categories, none) as trees, with the bundled file sets and with newer file sets in the user cache which have other or missing nxdlformat.xsl, "
        "by NxdlTreeView (twice, both settings of attributes) and by the command line; compared with lxml's own transformation, and every field looked up in the text; distinct by (category, file set, result)")
ASSUMPTIONS = ["XSLT by libxslt is trusted", "the file is well-formed XML; others only have to fail"]
CATEGORY = dict(base="base_classes", application="applications", contributed="contributed_definitions")


def expected(fn, default):
    """lines of the report, or None if there must be an error"""
    try:
        doc = lxml.etree.parse(fn)
    except (OSError, lxml.etree.XMLSyntaxError):
        return None, "not XML"
    cat = doc.getroot().get("category")
    if cat not in CATEGORY:
        return None, "category"
    xsl = os.path.join(default, CATEGORY[cat], "nxdlformat.xsl")
    if not os.path.exists(xsl):
        return None, "no XSLT"
    text = str(lxml.etree.XSLT(lxml.etree.parse(xsl))(doc))
    return ["file: " + fn, "XSLT: " + xsl] + text.splitlines(), cat


def fields(fn):
    ns = c20.NS
    return [n.get("name") + ":" + n.get("type", "NX_CHAR") for n in lxml.etree.parse(fn).getroot().iter(ns + "field") if n.get("name")]


def case(job):
    from punx import nxdltree

    rng = random.Random(job["seed"])
    default = c20.newest(os.path.join(job["config"], "punx")) if os.path.isdir(os.path.join(job["config"], "punx")) else os.path.join(common.CACHE, "v2018.5")
    bundled = c20.bundled_files()
    out = dict(problems=[], seen=[])
    for i in range(job["n"]):
        fn = os.path.join(job["config"], rng.choice(["NXa.nxdl.xml", "with space.nxdl.xml", "NXé.nxdl.xml"]))
        where = rng.choice(["", "", "", "base_classes", "applications", "contributed_definitions", "punx", "cache/applications"])
        os.makedirs(os.path.join(job["config"], "nxdl", where), exist_ok=True)
        fn = os.path.join(job["config"], "nxdl", where, os.path.basename(fn))
        if rng.random() < 0.15:
            os.chdir(os.path.dirname(fn))
            fn = rng.choice(["", "./"]) + os.path.basename(fn)
        k = rng.random()
        if k < 0.4:
            shutil.copyfile(rng.choice(bundled), fn)
            what = ["bundled"]
        elif k < 0.6:
            text = nxdlgen.valid_definition(rng, rng.choice(["a4fd52d", "v3.3", "v2018.5"]), "NXa", rng.choice(sorted(CATEGORY)))
            open(fn, "w", encoding="utf8").write(text)
            what = ["random"]
        else:
            what = c20.make_file(rng, fn, bundled)
            if rng.random() < 0.4:
                try:
                    doc = lxml.etree.parse(fn)
                    doc.getroot().set("category", rng.choice(["base", "application", "contributed", "applications", "Base", "", "base "]))
                    if rng.random() < 0.3:
                        del doc.getroot().attrib["category"]
                    doc.write(fn, encoding="utf8")
                    what.append("category")
                except (OSError, lxml.etree.XMLSyntaxError):
                    pass
        want, kind = expected(fn, default)
        got, error = None, None
        try:
            mc = nxdltree.NxdlTreeView(fn)
            attrs = rng.choice([True, False])
            got = mc.report(attrs)
            if mc.report(attrs) != got:
                out["problems"].append(["second report differs", dict(file=what)])
        except Exception as exc:
            error = exc
        detail = dict(what=what, kind=kind, default=default, error=repr(error), got=got and got[:40], want=want and want[:40])
        if want is None and error is None:
            out["problems"].append(["no error: " + kind, detail])
        elif want is None and kind != "not XML" and not isinstance(error, ValueError):
            out["problems"].append(["not a ValueError: " + kind, detail])
        elif want is not None and got != want:
            out["problems"].append(["tree is not the transformed file", detail])
        elif want is not None and what in (["bundled"], ["random"]) and job["known_xsl"]:
            lines = [line.strip().split("[")[0].split(" ")[0] for line in want]
            lost = [f for f in fields(fn) if not any(f == line or line.startswith(f) for line in lines)]
            if lost:
                out["problems"].append(["fields are not in the tree", dict(detail, lost=lost)])
        out["seen"].append([kind, what, len(want or [])])
    return out


def run(ctx):
    rng = ctx.rng("nxdltree")
    items = []
    for i in range(ctx.pick(8, 40)):
        cfg = ctx.mkdir("config%d" % i)
        known = True
        if i % 4:
            known = False
            p = os.path.join(cfg, "punx", "newer")
            c20.new_set(rng, p)
            for d in CATEGORY.values():
                if rng.random() < 0.8:
                    src = os.path.join(common.CACHE, rng.choice(common.SETS), rng.choice(sorted(CATEGORY.values())), "nxdlformat.xsl")
                    text = open(src, encoding="utf8").read()
                    text = text.replace("<xsl:text>  </xsl:text>", "<xsl:text>%s</xsl:text>" % rng.choice(["\t", "    ", "|-"]))
                    text = text.replace(" class)", " class %d)" % rng.randrange(1000))
                    open(os.path.join(p, d, "nxdlformat.xsl"), "w", encoding="utf8").write(text)
                elif os.path.exists(os.path.join(p, d, "nxdlformat.xsl")):
                    os.remove(os.path.join(p, d, "nxdlformat.xsl"))
        items.append((cfg, dict(op="call", call="checks.c23:case", config=cfg, seed=rng.getrandbits(48), known_xsl=known, n=ctx.pick(250, 1500))))
    results = ctx.parallel(lambda it: ctx.run_jobs([it[1]], workers=1, config=it[0])[0], items)
    for (cfg, j), r in zip(items, results):
        if "problems" not in r:
            ctx.violation("tree of NXDL files died", dict(result=r))
            continue
        for title, detail in r["problems"]:
            ctx.violation("NXDL tree: " + title, detail)
        for kind, what, n in r["seen"]:
            ctx.evaluated([cfg.split("/")[-1], kind, what, n])
            ctx.count(kind)
        ctx.sample(r["seen"][:6], 2)

    def cli(it):
        cfg, seed = it
        r = random.Random(seed)
        base = os.path.join(cfg, "punx")
        default = c20.newest(base) if os.path.isdir(base) else os.path.join(common.CACHE, "v2018.5")
        d = ctx.mkdir("cli", "%x" % seed)
        fn = os.path.join(d, "NXcli.nxdl.xml")
        c20.make_file(r, fn, c20.bundled_files())
        if r.random() < 0.2:
            os.remove(fn)
        want, kind = expected(fn, default)
        return want, kind, ctx.punx(["tree", "NXcli.nxdl.xml"] + r.choice([[], ["-a"]]), config=cfg, cwd=d)

    for want, kind, (rc, out, err) in ctx.parallel(cli, [(rng.choice(items)[0], rng.getrandbits(40)) for _ in range(ctx.pick(16, 100))]):
        text = out.split("distribution.\n\n", 1)[-1]
        ctx.evaluated(["command line", kind, text])
        if (rc == 0) != (want is not None) or (want is not None and text != "\n".join(want) + "\n") or (want is None and text) or "Traceback" in err:
            ctx.violation("punx tree x.nxdl.xml: exit code or output", dict(kind=kind, exit_code=rc, stdout=out[-2000:], stderr=err[-800:], want=want and want[:40]))
