"""C18: the classes in memory say what the NXDL files say"""
import json
import os
import random
import shutil

from vlib import cases, common, nxdlgen, nxdlref

RULE = ("the bundled file sets and random file sets (valid by their XML Schema: nested groups, repeated names, enumerations, dimensions, symbols, links, comments, doc, "
        "newer @optional and @recommended), damaged file sets, and validation of random data files by the random file sets (all findings); every class is compared with an "
        "independent reader of the XML; non-trivial: at least 3 members, distinct by the content of the class")
ASSUMPTIONS = ["no white space around names in NXDL", "not judged: xs:choice and other elements which punx does not read", "items of one name: groups are numbered first, then fields, then links"]


# ---- observed

def dump_attrs(d):
    return {k: (v if isinstance(v, str) else list(v.enumerations)) for k, v in d.items()}


def dump_field(f):
    dims = None
    if f.dimensions is not None:
        dims = dict(rank=f.dimensions.rank, dim=[[k, {a: getattr(v, a) for a in "index value ref refindex incr".split()}] for k, v in f.dimensions.dims.items()])
    return dict(name=f.name, attributes=dump_attrs(f.attributes), enumerations=list(f.enumerations), dims=dims, optional=bool(f.optional))


def dump_group(g):
    out = dict(name=getattr(g, "name", None), attributes=dump_attrs(g.attributes))
    out["fields"] = {k: dump_field(v) for k, v in g.fields.items()}
    out["groups"] = {k: dump_group(v) for k, v in g.groups.items()}
    out["links"] = {k: dict(name=v.name, target=v.target) for k, v in g.links.items()}
    return out


def dump_definition(d):
    out = dump_group(d)
    out.pop("name")
    out.update(title=d.title, category=d.category, symbols=list(d.symbols), file=os.path.basename(d.file_name))
    return out


# ---- expected

def want_field(c):
    dims = None
    if c.dims is not None:
        dims = dict(rank=c.dims["rank"], dim=[[k, v] for k, v in c.dims["dim"].items()])
    return dict(name=c.name, attributes=c.attributes, enumerations=c.enumerations, dims=dims, optional=c.optional)


def want_group(c, definition=False):
    attrs = dict(c.attributes)
    if not definition:
        attrs.update({k: v for k, v in c.xml.items() if k not in ("name", "type")})
    out = dict(attributes=attrs)
    if not definition:
        out["name"] = c.name
    out["fields"] = {k: want_field(v) for k, v in c.fields.items()}
    out["groups"] = {k: want_group(v) for k, v in c.groups.items()}
    out["links"] = {k: dict(name=v.name, target=v.target) for k, v in c.links.items()}
    return out


def want_definition(c):
    out = want_group(c, True)
    out.update(title=c.title, category=c.category, symbols=c.symbols, file=os.path.basename(c.file))
    return out


def diff(a, b, where=""):
    """first differences of two nested structures"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                yield f"{where}/{k}: not in NXDL file, but in memory"
            elif k not in b:
                yield f"{where}/{k}: in NXDL file, not in memory"
            else:
                yield from diff(a[k], b[k], f"{where}/{k}")
    elif a != b:
        yield f"{where}: expected {a!r}, observed {b!r}"[:300]


def size(c):
    return len(c.attributes) + len(c.fields) + len(c.links) + sum(1 + size(g) for g in c.groups.values())


def compare(manager, path):
    fs = nxdlref.FileSet(path)
    problems, shapes = [], []
    if list(manager.classes) != list(fs.classes):
        problems.append(["list of classes", [sorted(set(fs.classes) - set(manager.classes)), sorted(set(manager.classes) - set(fs.classes)), "or order"]])
    for k, c in fs.classes.items():
        if k not in manager.classes:
            continue
        want = want_definition(c)
        got = dump_definition(manager.classes[k])
        ds = list(diff(want, got))
        if ds:
            kind = [p for p in ds[0].split(":")[0].split("/") if p in ("attributes", "fields", "groups", "links", "dims", "enumerations", "optional", "symbols", "title", "category", "target")]
            problems.append(["content of a class: " + (kind[-1] if kind else "other"), dict(cls=k, file_set=os.path.basename(path), differences=ds[:5])])
        n = size(c)
        shapes.append(json.dumps(want, sort_keys=True) if n >= 3 else None)
    return problems, shapes


def load(path):
    from punx import cache_manager, nxdl_manager

    fs = cache_manager.NXDL_File_Set()
    fs.read_info_file(os.path.join(path, "__github_info__.json"))
    return nxdl_manager.NXDL_Manager(fs)


def case(job):
    rng = random.Random(job["seed"])
    out = dict(problems=[], shapes=[], refused={})
    for i in range(job["n"]):
        if job["bundled"]:
            path = os.path.join(common.CACHE, job["bundled"][i])
        else:
            version = rng.choice(["a4fd52d", "v3.3", "v2018.5", "v3.3+", "v2018.5+", "a4fd52d+"])
            path = nxdlgen.make_set(rng, os.path.join(job["dir"], f"s{job['id']}_{i}"), version, n=rng.randrange(1, 6), core=[])
            for _ in range(rng.choice([0, 0, 1, 3])):  # other names of files
                fn = some_file(rng, path)
                nm = rng.choice(["my_note", "nxlower", "note", "Copy of NXa", "0", "\u00e9", "NX", "NX-a", "nx", "_x", "README"])
                if not any(os.path.exists(os.path.join(path, c, nm + ".nxdl.xml")) for c in nxdlref.CATEGORIES):
                    shutil.copyfile(fn, os.path.join(os.path.dirname(fn), nm + ".nxdl.xml"))
        try:
            m = load(path)
        except Exception as exc:
            out["problems"].append(["valid file set refused", dict(exc=repr(exc)[:500], path=path)])
            out["keep"] = path
            continue
        p, s = compare(m, path)
        if i % 3 == 0:
            p2, _ = compare(load(path), path)  # again in this process
            p += p2
        out["problems"] += p
        out["shapes"] += s
        if not job["bundled"]:
            for kind in rng.sample(list(DAMAGE), 2):
                try:
                    undo = DAMAGE[kind](rng, path)
                except LookupError:
                    continue
                try:
                    load(path)
                    out["problems"].append(["damaged file set accepted: " + kind, path])
                except Exception as exc:
                    name = type(exc).__name__
                    out["refused"][kind + ": " + name] = out["refused"].get(kind + ": " + name, 0) + 1
                    if kind == "not valid" and not (name == "InvalidNxdlFile" and isinstance(exc, ValueError)):
                        out["problems"].append(["not valid NXDL file: not InvalidNxdlFile", repr(exc)[:300]])
                undo()
            if not p:
                shutil.rmtree(path)
    return out


def some_file(rng, path):
    files = [os.path.join(path, d, fn) for d in nxdlref.CATEGORIES for fn in sorted(os.listdir(os.path.join(path, d))) if fn.endswith(".nxdl.xml")]
    return rng.choice(files)


def changed(fn, text):
    old = open(fn, encoding="utf8").read()
    if text == old:
        raise LookupError
    open(fn, "w", encoding="utf8").write(text)
    return lambda: open(fn, "w", encoding="utf8").write(old)


def not_valid(rng, path):
    fn = some_file(rng, path)
    text = open(fn, encoding="utf8").read()
    a, b = rng.choice([("<field ", "<field nosuch='1' "), ("<definition ", "<definition what='1' "), ("</definition>", "<nosuch/></definition>"),
                       ("</definition>", "<field/></definition>"), (' category="base"', ' category="basic"'), ("<group ", "<group foo='1' ")])
    return changed(fn, text.replace(a, b, 1))


def not_xml(rng, path):
    fn = some_file(rng, path)
    text = open(fn, encoding="utf8").read()
    return changed(fn, rng.choice([text[: len(text) // 2], "", text + "<", "\0" + text]))


def no_directory(rng, path):
    d = os.path.join(path, rng.choice(nxdlref.CATEGORIES))
    os.rename(d, d + "_")
    return lambda: os.rename(d + "_", d)


def no_schema(rng, path):
    fn = os.path.join(path, rng.choice(["nxdl.xsd", "nxdlTypes.xsd"]))
    os.rename(fn, fn + "_")
    return lambda: os.rename(fn + "_", fn)


DAMAGE = {"not valid": not_valid, "not XML": not_xml, "no category directory": no_directory, "no schema": no_schema}


def run(ctx):
    rng = ctx.rng("sets")
    d = ctx.mkdir("sets")
    jobs = [dict(bundled=[s], n=1) for s in common.SETS]
    jobs += [dict(bundled=None, n=ctx.pick(6, 60)) for _ in range(ctx.pick(16, 48))]
    for i, j in enumerate(jobs):
        j.update(op="call", call="checks.c18:case", dir=d, id=i, seed=rng.getrandbits(48))
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "problems" not in r:
            ctx.violation("reading a file set died", dict(job=j, result=r))
            continue
        for p in r["problems"]:
            ctx.violation("NXDL: " + p[0], p[1])
        for s in r["shapes"]:
            ctx.evaluated(s)
        for k, n in r["refused"].items():
            ctx.count("refused " + k, n)
        ctx.sample(dict(bundled=j["bundled"], classes=len(r["shapes"]), refused=r["refused"]), 5)
    # findings by generated file sets
    jobs = []
    base = os.path.join(ctx.config, "punx")
    os.makedirs(base, exist_ok=True)
    names = []
    for i in range(ctx.pick(8, 40)):
        nm = "gen%d" % i
        nxdlgen.make_set(rng, os.path.join(base, nm), rng.choice(["a4fd52d", "v3.3", "v2018.5", "v3.3+", "v2018.5+"]), n=6)
        names.append(nm)
    for nm in names:
        for i in range(ctx.pick(10, 40)):
            jobs.append(dict(make="random:", seed=rng.getrandbits(48), ref=nm, weights={}))
    cases.run_cases(ctx, jobs, ["name", "link", "nxclass", "member", "appdef", "pointer", "attr", "plot"])
