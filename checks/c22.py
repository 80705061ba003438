"""C22: the schema in memory says what nxdl.xsd and nxdlTypes.xsd say"""
import json
import os
import random
import shutil

import lxml.etree

from checks import c18
from vlib import common, nxdlgen, xsdref

RULE = ("bundled schemas and variants (other defaults, uses, patterns, enumerations, more attributes, other units and types), read in random orders in one process, "
        "as SchemaManager and as NXDL_Summary, some of them again; all compared with an independent reader of the XML Schema at the end of the history; "
        "distinct by the content of the schema")
ASSUMPTIONS = ["NXDL elements: definition, symbols, symbol, doc, attribute, group, field, link, dimensions, dim, enumeration, item", "each xs:attribute starts on its own line, as in NeXus"]

ELEMENTS = [("field",), ("group",), ("attribute",), ("link",), ("symbols",), ("symbols", "symbol"), ("field", "dimensions"), ("field", "dimensions", "dim"), ("field", "attribute"),
            ("field", "enumeration", "item"), ("group", "field"), ("group", "attribute"), ("group", "link"), ("group", "field", "attribute"), ("group", "field", "dimensions", "dim")]


VERSIONS = ["a4fd52d", "v3.3", "v2018.5", "v3.3+", "v2018.5+"]


def norm(v, kind=None):
    v = None if v is None else str(v).lower()
    return {"1": "true", "0": "false"}.get(v, v) if str(kind).endswith("NX_BOOLEAN") else v


def want_attrs(attrs, types):
    return {k: dict(required=a.required, default=norm(a.default, a.type), type=a.type if types or a.type else None, patterns=a.patterns, enum=a.enum) for k, a in attrs.items()}


def manager_dump(sm):
    def attrs(o):
        return {k: dict(required=bool(a.required), default=norm(a.default_value, a.type), type=None if a.type == "str" else a.type.split(":")[-1], patterns=list(a.patterns), enum=list(a.enum))
                for k, a in o.attrs.items()}

    out = {"definition": attrs(sm.nxdl)}
    for names in ELEMENTS + [("choice",), ("choice", "group"), ("group", "choice")]:
        if "choice" in names and "choice" not in sm.nxdl.children:
            continue
        o = sm.nxdl
        for n in names:
            o = o.children.get(n) if hasattr(o, "children") else None
            if o is None:
                break
        out["/".join(names)] = None if o is None or not hasattr(o, "attrs") else attrs(o)
    out["patterns"] = {k: [p.base, list(p.re_list), p.maxLength] for k, p in sm.nxdl.patterns.items()}
    out["units"] = list(sm.nxdl.units)
    out["types"] = {k: dict(base=t.restriction, values=list(t.values or []), union=list(t.union or [])) for k, t in sm.nxdl.types.items()}
    return out


def manager_want(path):
    s = xsdref.Schema(path)
    out = {"definition": want_attrs(s.find(), True)}
    choice = [("choice",), ("choice", "group"), ("group", "choice")] if "choice" in s.of_type(s.definition)[1] else []
    for names in ELEMENTS + choice:
        out["/".join(names)] = want_attrs(s.find(*names), True)
    out["patterns"] = {k: [b, p, -1 if m is None else m] for k, (b, p, m) in s.simple().items() if k.startswith("valid")}
    t = xsdref.types(path)
    u = t.pop("anyUnitsAttr")
    t.pop("primitiveType")
    out["units"] = u["values"] or u["union"]
    out["types"] = t
    return out


def summary_dump(su):
    def attrs(o):
        return {k: dict(required=bool(a.required), default=norm(a.default_value, a.type), type=a.type.lstrip("_").split(":")[-1], patterns=list(a.patterns), maxLength=a.maxLength) for k, a in o.attributes.items()}

    out = dict(definition=attrs(su.definition), field=attrs(su.field), group=attrs(su.group), attribute=attrs(su.attribute), link=attrs(su.link), symbols=attrs(su.symbols))
    c = su.field.components
    out["field/dimensions"] = attrs(c["dimensions"])
    out["field/dimensions/dim"] = attrs(c["dimensions"].components["dim"])
    out["field/attribute"] = attrs(c["attribute"])
    out["field/enumeration/item"] = attrs(c["enumeration"].components["item"])
    out["symbols/symbol"] = attrs(su.symbols.components["symbol"])
    out["simple"] = {k: [list(t.patterns), t.maxLength] for k, t in su.simpleType.items() if not k.startswith("Line ")}
    return out


def summary_want(path):
    s = xsdref.Schema(path)
    simple = s.simple(unions=True)

    def attrs(*names):
        return {k: dict(required=a.required, default=norm(a.default, a.type), type=a.type or "NX_CHAR", **dict(zip(("patterns", "maxLength"), simple.get(a.type, [None, a.patterns, None])[1:]))) for k, a in s.find(*names).items()}

    out = dict(definition=attrs())
    for names in ("field", "group", "attribute", "link", "symbols", "field/dimensions", "field/dimensions/dim", "field/attribute", "field/enumeration/item", "symbols/symbol"):
        out[names] = attrs(*names.split("/"))
    out["simple"] = {k: [p, m] for k, (b, p, m) in simple.items()}
    return out


def make(rng, path, version):
    os.makedirs(path)
    text, done = nxdlgen.mutate_xsd(rng, nxdlgen.xsd_text(version), safe=False)
    with open(os.path.join(path, "nxdl.xsd"), "w", encoding="utf8") as f:
        f.write(text)
    with open(os.path.join(common.CACHE, version.rstrip("+"), "nxdlTypes.xsd"), encoding="utf8") as f:
        t = f.read()
    if rng.random() < 0.5:
        t = t.replace("</xs:schema>", '<xs:simpleType name="NX_VERIF%d"><xs:restriction base="xs:string"><xs:enumeration value="a"/><!-- c --><xs:enumeration value="b"/></xs:restriction></xs:simpleType>\n</xs:schema>' % rng.randrange(9))
        done.append(["type"])
    if rng.random() < 0.3:
        root = lxml.etree.fromstring(t.encode("utf8"))
        nxdlgen.add_comments(rng, root, rng.choice([1, 4, 20]))
        t = lxml.etree.tostring(root, encoding="unicode")
        done.append(["comments in types"])
    with open(os.path.join(path, "nxdlTypes.xsd"), "w", encoding="utf8") as f:
        f.write(t)
    return done


def case(job):
    from punx import cache_manager, nxdl_schema, schema_manager

    rng = random.Random(job["seed"])
    paths, changes = [os.path.join(common.CACHE, s) for s in rng.sample(common.SETS, rng.randrange(4))], {}
    bundled = list(paths)
    for i in range(job["n"]):
        p = os.path.join(job["dir"], f"x{job['id']}_{i // 2}", "ab"[i % 2]) if job["id"] % 3 else os.path.join(job["dir"], f"x{job['id']}_{i}", "a")
        changes[p] = make(rng, p, rng.choice(VERSIONS))
        paths.append(p)
    rng.shuffle(paths)
    seen = []
    for n, p in enumerate(paths + rng.sample(paths, len(paths) // 2)):
        if n >= len(paths) and p not in bundled and rng.random() < 0.6:  # an update of the file set
            shutil.rmtree(p)
            changes[p] = make(rng, p, rng.choice(VERSIONS))
        for kind in rng.sample(["manager", "summary", "file set"], 2):
            if kind == "manager":
                seen.append((kind, p, schema_manager.SchemaManager(p), manager_want(p)))
            elif kind == "summary":
                seen.append((kind, p, nxdl_schema.NXDL_Summary(os.path.join(p, "nxdl.xsd")), summary_want(p)))
            elif "/punx/cache/" in p:
                cm = cache_manager.CacheManager()
                seen.append(("manager", p, cm.all_file_sets[os.path.basename(p)].schema_manager, manager_want(p)))
    out = dict(problems=[], shapes=[], order=[[k, os.path.basename(p)] for k, p, _, _ in seen], changes=changes)
    for default in (schema_manager.SchemaManager(), schema_manager.get_default_schema_manager()):
        p = cache_manager.CacheManager().default_file_set.path
        seen.append(("manager", p, default, manager_want(p)))
    for kind, p, obj, want in seen:
        got = manager_dump(obj) if kind == "manager" else summary_dump(obj)
        if kind == "manager" and obj.name != os.path.basename(p):
            out["problems"].append([kind, p, ["name " + str(obj.name)]])
        for k in list(want):
            if kind == "manager" and got.get(k) is None and k in ("group/group",):
                want.pop(k)
        ds = list(c18.diff(want, got))
        if ds:
            out["problems"].append([kind, p, ds[:6]])
        out["shapes"].append(kind + json.dumps(want, sort_keys=True))
    for p in paths:
        if "/punx/cache/" not in p:
            shutil.rmtree(p)
    return out


def run(ctx):
    rng = ctx.rng("schema")
    d = ctx.mkdir("schemas")
    jobs = [dict(op="call", call="checks.c22:case", dir=d, id=i, seed=rng.getrandbits(48), n=rng.randrange(2, 9)) for i in range(ctx.pick(48, 800))]
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "problems" not in r:
            ctx.violation("reading a schema failed", dict(job=j, result=r))
            continue
        for kind, p, ds in r["problems"]:
            ctx.violation(f"{kind}: {ds[0].split(':')[0].split('/')[1] if '/' in ds[0] else ds[0][:40]}", dict(schema=p, differences=ds, order=r["order"], changes=r["changes"].get(p)))
        for s in r["shapes"]:
            ctx.evaluated(s)
        ctx.sample(dict(order=r["order"], changes=r["changes"]), 3)
