"""C19: required or optional by default: as in the XML Schema of the file set, required in application definitions"""
import json
import os
import random

from checks import c18
from checks.c22 import norm
from vlib import common, filesets, nxdlgen, xsdref

RULE = ("histories of reading several file sets in one process (bundled, random definitions, nxdl.xsd with other defaults and attributes), in random orders, again, file sets with the same ref, replaced while in use, and reading "
        "single schemas between; at the end of each history every field, group, attribute and dimension of every class of all managers is compared with an independent reader "
        "of the nxdl.xsd of its own file set; distinct by (category, kind, defaults)")
ASSUMPTIONS = ["the default value is what NXDL_Manager gives as xml_attributes (text or number)"]



def check_item(kind, obj, schema, app):
    want = {k: [a.required, norm(a.default, a.type)] for k, a in schema[kind].items()}
    if app and kind in ("field", "group"):
        want["minOccurs"][1] = "1"
    if app and kind == "attribute":
        want["optional"][1] = "false"
    got = {k: [bool(v.required), norm(v.default_value, v.type)] for k, v in obj.xml_attributes.items()}
    return list(c18.diff(want, got)), got


def walk(definition):
    def attributes(o, where):
        for k, a in o.attributes.items():
            if not isinstance(a, str):
                yield "attribute", a, where + "@" + k

    def group(g, where):
        yield from attributes(g, where)
        for k, f in g.fields.items():
            yield "field", f, where + "/" + k
            yield from attributes(f, where + "/" + k)
            if f.dimensions is not None:
                yield "dimensions", f.dimensions, where + "/" + k + " dimensions"
                for i, d in f.dimensions.dims.items():
                    yield "dim", d, f"{where}/{k} dim {i}"
        for k, sub in g.groups.items():
            yield "group", sub, where + "/" + k
            yield from group(sub, where + "/" + k)

    yield "definition", definition, definition.title
    yield from group(definition, definition.title)


def case(job):
    from punx import nxdl_schema, schema_manager

    rng = random.Random(job["seed"])
    paths, versions = [], {}
    for i in range(job["generated"]):
        version = rng.choice(["a4fd52d", "v3.3", "v2018.5", "v3.3+"])
        p = nxdlgen.make_set(rng, os.path.join(job["dir"], f"s{job['id']}_{i}"), version, n=3, core=[])
        if rng.random() < 0.7:
            text, done = nxdlgen.mutate_xsd(rng, nxdlgen.xsd_text(version))
            with open(os.path.join(p, "nxdl.xsd"), "w", encoding="utf8") as f:
                f.write(text)
        if i and rng.random() < 0.3:  # other file sets may have the same ref
            info = os.path.join(p, filesets.INFO)
            with open(info) as f:
                content = json.load(f)
            content["ref"] = f"s{job['id']}_0"
            filesets.write_info(p, content)
        versions[p] = version
        paths.append(p)
    paths += [os.path.join(common.CACHE, s) for s in job["bundled"]]
    rng.shuffle(paths)
    order, managers = [], []
    for p in paths + rng.sample(paths, len(paths) // 2):
        order.append(os.path.basename(p))
        managers.append((p, c18.load(p), xsdref.Schema(p)))
        if p in versions and rng.random() < 0.4:  # another content, as after an update
            text, done = nxdlgen.mutate_xsd(rng, nxdlgen.xsd_text(versions[p]))
            with open(os.path.join(p, "nxdl.xsd"), "w", encoding="utf8") as f:
                f.write(text)
            order.append("replaced nxdl.xsd of " + os.path.basename(p))
            managers.append((p, c18.load(p), xsdref.Schema(p)))
        if rng.random() < 0.4:
            q = rng.choice(paths)
            schema_manager.SchemaManager(q)
            nxdl_schema.NXDL_Summary(os.path.join(q, "nxdl.xsd"))
            order.append("schema of " + os.path.basename(q))
    out = dict(order=order, problems=[], shapes={}, n=0)
    for p, m, s in managers:
        schema = dict(definition=s.find(), field=s.find("field"), group=s.find("group"), attribute=s.find("attribute"),
                      dimensions=s.find("field", "dimensions"), dim=s.find("field", "dimensions", "dim"))
        for c in m.classes.values():
            for kind, obj, where in walk(c):
                ds, got = check_item(kind, obj, schema, c.category == "applications")
                out["n"] += 1
                if ds and len(out["problems"]) < 20:
                    out["problems"].append([kind, c.category, where, os.path.basename(p), ds[:4]])
                key = repr([c.category, kind, sorted(got.items())])
                out["shapes"][key] = out["shapes"].get(key, 0) + 1
    return out


def run(ctx):
    rng = ctx.rng("defaults")
    d = ctx.mkdir("sets")
    jobs = []
    for i in range(ctx.pick(16, 120)):
        jobs.append(dict(op="call", call="checks.c19:case", dir=d, id=i, seed=rng.getrandbits(48), generated=rng.randrange(2, 6),
                         bundled=rng.sample(common.SETS, rng.choice([0, 0, 1, 2]))))
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "problems" not in r:
            ctx.violation("reading file sets failed", dict(job=j, result=r))
            continue
        for kind, cat, where, fs, ds in r["problems"]:
            ctx.violation(f"defaults of {kind} in {cat}", dict(item=where, file_set=fs, differences=ds, order=r["order"]))
        for k, n in r["shapes"].items():
            ctx.evaluated(k, n)
        ctx.count("items compared", r["n"])
        ctx.sample(dict(order=r["order"], items=r["n"]), 3)
