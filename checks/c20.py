"""C20: validation of a NXDL file agrees with the XML Schema of the selected file set"""
import json
import os
import random
import shutil

import lxml.etree

from vlib import common, filesets, nxdlgen

RULE = ("NXDL files (bundled, random, and both with random changes: attributes, elements, order, names, values, text, namespaces, root, encodings, doctype, not well-formed, empty, missing, directories) "
        "validated by bundled file sets and generated ones (changed nxdl.xsd: uses, enumerations, patterns, attributes), many in one process, in random order, file sets replaced or added between; "
        "some by the command line; verdict compared with lxml and the nxdl.xsd of that file set; distinct by (what was changed, first schema error, verdict)")
ASSUMPTIONS = ["the XML Schema implementation of libxml2 is trusted", "nothing else changes the file sets during a call"]
NS = "{http://definition.nexusformat.org/nxdl/3.1}"


def bundled_files():
    out = []
    for s in common.SETS:
        for d in ("base_classes", "applications", "contributed_definitions"):
            p = os.path.join(common.CACHE, s, d)
            out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".nxdl.xml")]
    return out


def change(rng, root):
    """one random change of the document, returns its name"""
    nodes = [n for n in root.iter() if isinstance(n.tag, str) and n.tag.startswith(NS)]
    if not nodes:
        return None
    if rng.random() < 0.7:  # all kinds of elements, also the rare ones
        tag = rng.choice(sorted({(n.tag, n.getparent().tag if n.getparent() is not None else "") for n in nodes}))
        nodes = [n for n in nodes if (n.tag, n.getparent().tag if n.getparent() is not None else "") == tag]
    n = rng.choice(nodes)
    k = rng.randrange(15)
    if k == 14 and len(n.attrib):
        a = rng.choice(sorted(n.attrib))
        n.set(rng.choice([a[:-1], a + "s", a.upper()]) or "x", n.attrib.pop(a))
        return "rename attribute"
    if k == 0:
        n.set(rng.choice(["foo", "name", "type", "minOccurs", "optional", "recommended", "units", "deprecated", "verif%d" % rng.randrange(100)]), rng.choice(["1", "x", "", "NXdata", "true", "a b"]))
        return "set attribute"
    if k == 1 and len(n.attrib):
        del n.attrib[rng.choice(sorted(n.attrib))]
        return "remove attribute"
    if k == 2 and len(n.attrib):
        a = rng.choice(sorted(n.attrib))
        n.set(a, rng.choice([n.get(a) + "x", n.get(a).upper(), " " + n.get(a), "", "3", "unbounded", "-1", "é", "1.5", "NX_FLOAT"]))
        return "change attribute"
    if k == 3:
        n.tag = NS + rng.choice(["field", "group", "attribute", "link", "doc", "symbols", "choice", "nosuch", "enumeration", "item", "dim", "dimensions", "definition"])
        return "rename element"
    if k == 4 and n.getparent() is not None:
        n.getparent().remove(n)
        return "remove element"
    if k == 5 and n.getparent() is not None:
        n.getparent().insert(rng.randrange(len(n.getparent()) + 1), lxml.etree.fromstring(lxml.etree.tostring(n)))
        return "repeat element"
    if k == 6 and len(n) > 1:
        kids = list(n)
        rng.shuffle(kids)
        for c in kids:
            n.append(c)
        return "order"
    if k == 7:
        n.text = rng.choice(["text", "  ", "1", None])
        return "text"
    if k == 8:
        n.tag = rng.choice(["{http://example.com/x}", "", "{http://definition.nexusformat.org/nxdl/3.2}"]) + n.tag[len(NS):]
        return "namespace"
    if k == 9:
        lxml.etree.SubElement(n, NS + rng.choice(["field", "group", "attribute", "doc", "item", "symbols", "link", "dim"]))
        return "empty child"
    if k == 10:
        new = [lxml.etree.Comment(" comment "), lxml.etree.ProcessingInstruction("pi", "x")]
        rng.shuffle(new)
        for c in new[:rng.choice([1, 2])]:
            c.tail = rng.choice([None, "\n", "text"])
            n.insert(rng.randrange(len(n) + 1), c)
        return "comment"
    if k == 11:
        e = lxml.etree.SubElement(n, NS + "field")
        e.set("name", rng.choice(["good", "2theta", "x-y", "", "a" * 80, "X_1", "a.b"]))
        return "new field"
    if k == 12:
        n.set("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation", "http://definition.nexusformat.org/nxdl/3.1 nosuch.xsd")
        return "schemaLocation"
    if k == 13 and n.get("type") is not None:
        n.set("type", rng.choice(["NX_NUMBER", "NXnosuch", "group", "nxdata", "NX_", "NX"]))
        return "type"
    return None


def make_file(rng, path, sources):
    """write a file, return what was done"""
    what = []
    src = rng.choice(sources)
    with open(src, "rb") as f:
        doc = lxml.etree.fromstring(f.read())
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 4])):
        c = change(rng, doc)
        if c:
            what.append(c)
    raw = lxml.etree.tostring(doc.getroottree(), xml_declaration=True, encoding="utf8")
    k = rng.randrange(20)
    if k == 0:
        i = rng.randrange(len(raw))
        raw = raw[:i]
        what.append("truncated")
    elif k == 1:
        raw = rng.choice([b"", b"not XML", b"\x89HDF\r\n\x1a\n", b"<a><b></a>", b"<a/><b/>"])
        what.append("other content")
    elif k == 2:
        raw = lxml.etree.tostring(doc.getroottree(), xml_declaration=True, encoding=rng.choice(["utf-16", "iso-8859-1", "ascii"]))
        what.append("encoding")
    elif k == 3:
        i = rng.randrange(len(raw))
        raw = raw[:i] + rng.choice([b"&", b"<", b"\xff", b"\0", b"&nosuch;", b"]]>"]) + raw[i:]
        what.append("odd character")
    elif k == 4:
        body = lxml.etree.tostring(doc)
        raw = b'<?xml version="1.0"?>\n<!DOCTYPE definition [<!ENTITY x "y"><!ATTLIST definition ignoreExtraFields CDATA "true">]>\n' + body.replace(b"<doc>", b"<doc>&x;", 1)
        what.append("doctype")
    elif k == 5:
        raw = lxml.etree.tostring(doc[0]) if len(doc) and isinstance(doc[0].tag, str) else raw
        what.append("other root")
    elif k == 7 and len(doc):
        part = b'<field xmlns="http://definition.nexusformat.org/nxdl/3.1" name="x"/>'
        with open(os.path.join(os.path.dirname(path), "part.xml"), "wb") as f:
            f.write(part)
        inc = lxml.etree.SubElement(rng.choice([doc, doc[-1]]), "{http://www.w3.org/2001/XInclude}include")
        inc.set("href", rng.choice(["part.xml", "nosuch.xml"]))
        if rng.random() < 0.3:
            lxml.etree.SubElement(inc, "{http://www.w3.org/2001/XInclude}fallback").append(lxml.etree.fromstring(part))
        raw = lxml.etree.tostring(doc.getroottree(), xml_declaration=True, encoding="utf8")
        what.append("xinclude")
    elif k == 6:
        raw = lxml.etree.tostring(doc.getroottree(), encoding="utf8").replace(b'="', b"='").replace(b'" ', b"' ").replace(b'">', b"'>").replace(b'"/>', b"'/>")
        what.append("quotes")
    with open(path, "wb") as f:
        f.write(raw)
    return what


def oracle(path, xsd):
    """(verdict, first error) by lxml and the nxdl.xsd of the file set"""
    schema = lxml.etree.XMLSchema(lxml.etree.parse(xsd))
    try:
        doc = lxml.etree.parse(path)
    except (OSError, lxml.etree.XMLSyntaxError) as exc:
        return "InvalidNxdlFile", type(exc).__name__
    if schema.validate(doc):
        return "valid", ""
    return "InvalidNxdlFile", schema.error_log[0].type_name


def new_set(rng, path):
    version = rng.choice(["a4fd52d", "v3.3", "v2018.5", "v3.3+", "v2018.5+"])
    nxdlgen.make_set(rng, path, version, n=1)
    text, done = nxdlgen.mutate_xsd(rng, nxdlgen.xsd_text(version), safe=False)
    with open(os.path.join(path, "nxdl.xsd"), "w", encoding="utf8") as f:
        f.write(text)
    filesets.write_info(path, dict(ref=os.path.basename(path), sha="0123456789", zip_url="x", last_modified="20%02d-01-01 00:00:%02d" % (rng.randrange(10, 30), rng.randrange(60))))
    return done


def newest(base):
    best = None
    for root in (common.CACHE, base):
        for nm in os.listdir(root):
            fn = os.path.join(root, nm, "__github_info__.json")
            if os.path.exists(fn):
                with open(fn) as f:
                    d = json.load(f)["last_modified"]
                best = max(best, (d, os.path.join(root, nm))) if best else (d, os.path.join(root, nm))
    return best[1]


def call(fn, ref):
    from punx import validate

    try:
        r = validate.validate_xml(fn, ref)
        return "valid" if r is None else "valid " + repr(r)
    except Exception as exc:
        return type(exc).__name__


def case(job):
    import punx

    rng = random.Random(job["seed"])
    base = os.path.join(job["config"], "punx")
    bundled = bundled_files()
    names = ["s%d" % i for i in range(job["sets"])]
    for nm in names:
        new_set(rng, os.path.join(base, nm))
    fn = os.path.join(job["config"], "NXverif.nxdl.xml")
    out = dict(problems=[], seen=[], steps=0)
    assert issubclass(punx.InvalidNxdlFile, ValueError)
    for step in range(job["n"]):
        k = rng.random()
        if k < 0.04:
            nm = rng.choice(names)
            shutil.rmtree(os.path.join(base, nm))
            new_set(rng, os.path.join(base, nm))
            out["steps"] += 1
        elif k < 0.06:
            names.append("n%d" % step)
            out["steps"] += 1
            new_set(rng, os.path.join(base, names[-1]))
        ref = rng.choice(names + names + list(common.SETS))
        path = os.path.join(base if ref in names else common.CACHE, ref)
        if out["steps"] == 0 and rng.random() < 0.2:  # the default is selected once in a process
            ref, path = None, newest(base)
        own = [os.path.join(base, n, d, f) for n in names for d in ("base_classes", "applications", "contributed_definitions")
               for f in os.listdir(os.path.join(base, n, d)) if f.endswith(".nxdl.xml")]
        what = make_file(rng, fn, bundled if rng.random() < 0.3 else own)
        want, error = oracle(fn, os.path.join(path, "nxdl.xsd"))
        got = call(fn, ref)
        with open(fn, "rb") as f:
            text = f.read()
        if got != want:
            out["problems"].append([f"{want} expected, got {got}", dict(what=what, error=error, file_set=path, ref=ref, text=text.decode("utf8", "replace")[:3000])])
        out["seen"].append([what, error, want, ref in names])
        if rng.random() < 0.05:
            got = call(fn, rng.choice(["nosuch", "", "V3.3", "v3"]))
            if got != "KeyError":
                out["problems"].append(["unknown file set: " + got, dict(got=got)])
            os.rename(fn, fn + "_")
            got = call(fn, ref)
            if got != "FileNotFound":
                out["problems"].append(["missing file: " + got, dict(got=got)])
            os.mkdir(fn)
            got = call(fn, ref)
            if got != "InvalidNxdlFile":
                out["problems"].append(["directory: " + got, dict(got=got)])
            os.rmdir(fn)
    return out


def run(ctx):
    rng = ctx.rng("nxdl")
    items = []
    for i in range(ctx.pick(8, 40)):
        cfg = ctx.mkdir("config%d" % i)
        items.append((cfg, dict(op="call", call="checks.c20:case", config=cfg, seed=rng.getrandbits(48), sets=rng.randrange(1, 5), n=ctx.pick(700, 2500))))
    results = ctx.parallel(lambda it: ctx.run_jobs([it[1]], workers=1, config=it[0])[0], items)
    for (cfg, job), r in zip(items, results):
        if "problems" not in r:
            ctx.violation("validation of NXDL files died", dict(job=job, result=r))
            continue
        for title, detail in r["problems"]:
            ctx.violation("validate_xml: " + title, detail)
        for what, error, want, own in r["seen"]:
            ctx.evaluated([sorted(set(what)), error, want, own] if what or own else None)
            ctx.count(want)
        ctx.sample([s for s in r["seen"][:8]], 2)

    def cli(it):
        cfg, seed = it
        r = random.Random(seed)
        base = os.path.join(cfg, "punx")
        names = sorted(os.listdir(base)) if os.path.isdir(base) else []
        d = ctx.mkdir("cli", "%x" % seed)
        fn = os.path.join(d, "NXcli.nxdl.xml")
        what = make_file(r, fn, bundled_files())
        ref = r.choice(names + list(common.SETS) + [None])
        path = newest(base) if ref is None else os.path.join(base if ref in names else common.CACHE, ref)
        want, error = oracle(fn, os.path.join(path, "nxdl.xsd"))
        return what, error, want, ref, ctx.punx(["validate", fn] + ([] if ref is None else [r.choice(["-f", "--file_set_name"]), ref]), config=cfg), fn

    for what, error, want, ref, (rc, out, err), fn in ctx.parallel(cli, [(rng.choice(items)[0], rng.getrandbits(40)) for _ in range(ctx.pick(16, 120))]):
        says = out.rstrip().endswith("validates")
        if (rc == 0) != (want == "valid") or says != (want == "valid") or rc not in (0, 1) or "Traceback" in err:
            ctx.violation("punx validate x.nxdl.xml: exit code or output", dict(want=want, error=error, ref=ref, what=what, exit_code=rc, stdout=out, stderr=err[-800:]), files=[fn])
        ctx.evaluated(["command line", sorted(set(what)), error, want])
