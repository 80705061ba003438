"""C01: the catalog of a file is complete, with right addresses and class paths"""
import contextlib
import os
import random

import h5py
import numpy

from vlib import cases, common, h5gen, h5model, nxdlref, refmodel, worker
from vlib.h5model import NONNX

RULE = ("random trees with hard, soft and external links to datasets and groups, links back to parents, dangling links, groups reachable at "
        "many addresses, non-NeXus groups, committed datatypes, odd names; catalog compared with an independent walk of the file; "
        "non-trivial: at least 5 catalogued objects, distinct by the set of (class path, kind)")
ASSUMPTIONS = ["items with '@' in their name are out of the stated domain", "h5py resolves links as HDF5 defines"]


def links_file(job, path):
    """many links of all kinds"""
    rng = random.Random(job["spec"]["seed"])
    base = os.path.splitext(path)[0]
    exts = []
    ev = {}

    def note(k):
        ev[k] = ev.get(k, 0) + 1

    for i in range(2):
        fn = f"{base}_e{i}.h5"
        exts.append(fn)
        with h5py.File(fn, "w") as f:
            a = f.create_group("a")
            a.attrs["NX_class"] = rng.choice(["NXdata", "NXinstrument", "plain"])
            a["v"] = [1, 2]
            a["v"].attrs["units"] = "m"
            b = a.create_group("b")
            b.attrs["NX_class"] = "NXlog"
            b["t"] = 1.0
            b["up"] = h5py.SoftLink("/a")
            f["entry"] = 5
            a["back"] = h5py.ExternalLink(os.path.basename(path), "/entry")
            a["other"] = h5py.ExternalLink(os.path.basename(f"{base}_e{1 - i}.h5"), "/a/b")
    with h5py.File(path, "w", track_order=rng.random() < 0.5) as f:
        groups = [f]
        dsets = []
        classes = ["NXentry", "NXdata", "NXinstrument", "NXcollection", "NXfoo", None, "plain", "NXsubentry"]
        for i in range(rng.randrange(3, 14)):
            g = rng.choice(groups)
            if len(g.name.split("/")) > 6:
                continue
            nm = rng.choice(["entry", "a", "b", "data", "Zz", "g g", "x.y", "é"]) + rng.choice(["", "", str(i)])
            if nm in g or g.get(nm, getlink=True) is not None:
                continue
            q = g.create_group(nm)
            cls = "NXentry" if g.name == "/" and rng.random() < 0.7 else rng.choice(classes)
            if cls:
                q.attrs["NX_class"] = cls if rng.random() < 0.7 else numpy.bytes_(cls)
            for k in range(rng.randrange(3)):
                q.attrs[rng.choice(["p", "q", "target", "sp ace", "ü"])] = rng.choice([1, "text", "/entry", q.name])
            groups.append(q)
            for k in range(rng.randrange(3)):
                d = q.create_dataset(f"d{k}", data=rng.choice([1, [1, 2], "s"]))
                if rng.random() < 0.5:
                    d.attrs["units"] = "m"
                if rng.random() < 0.2:
                    d.attrs["target"] = rng.choice([d.name, "/entry/x", "rel"])
                dsets.append(d)
            if rng.random() < 0.1:
                q["type"] = numpy.dtype("i4")
        count = 0
        for i in range(rng.randrange(12)):
            g = rng.choice(groups)
            nm = f"l{i}"
            k = rng.randrange(11)
            if k == 0 and dsets:
                g[nm] = rng.choice(dsets)
                note("hard dataset")
            elif k == 1 and dsets:
                g[nm] = h5py.SoftLink(rng.choice(dsets).name)
                note("soft dataset")
            elif k in (2, 3):
                t = rng.choice(groups)
                if count > 3:
                    continue
                count += 1
                if k == 2:
                    g[nm] = t
                    note("hard group")
                else:
                    g[nm] = h5py.SoftLink(t.name)
                    note("soft group")
            elif k == 4:
                g[nm] = h5py.SoftLink(g.name)
                note("soft loop")
            elif k == 5:
                g[nm] = h5py.SoftLink(rng.choice(["/nowhere", "nowhere", g.name.rstrip("/") + "/" + nm]))
                note("dangling")
            elif k == 6:
                g[nm] = h5py.ExternalLink(rng.choice(["missing.h5", os.path.basename(exts[0])]), rng.choice(["/none", "/a/none"]))
                note("missing external")
            elif k in (7, 8):
                if count > 3:
                    continue
                count += 1
                g[nm] = h5py.ExternalLink(os.path.basename(rng.choice(exts)), rng.choice(["/a", "/a/b", "/", "/a/v", "/entry"]))
                note("external")
            elif k == 9 and dsets:
                g[nm] = h5py.SoftLink("./" + rng.choice(["d0", "d1", "l0"]))
                note("relative soft")
            elif k == 10:
                g[nm] = h5py.SoftLink("l%d" % rng.randrange(12))
                note("soft to link")
        if rng.random() < 0.12:  # nested deeply
            g = rng.choice(groups)
            depth = rng.choice([15, 25, 40, 70, 130])
            nm = rng.choice(["g", "sub group"])
            for i in range(depth):
                if g.get(nm, getlink=True) is not None:
                    break
                g = g.create_group(nm)
                if i < depth - 3 or rng.random() < 0.7:
                    g.attrs["NX_class"] = rng.choice(["NXcollection", "NXcollection", "NXdata", "NXfoo"])
                if i % 9 == 4:
                    g[f"d{i}"] = i
            else:
                g["last"] = 1.0
                g["last"].attrs["units"] = "m"
                g["up"] = h5py.SoftLink(rng.choice([g.name, g.parent.name, "/nowhere"]))
                note(f"groups nested {depth} deep")
    return ev


def deep_file(job, path):
    """groups nested deeper than Python can recurse"""
    with h5py.File(path, "w") as f:
        g = f.create_group("entry")
        g.attrs["NX_class"] = "NXentry"
        for i in range(job["spec"]["depth"]):
            g = g.create_group("g")
            if i < job["spec"]["named"]:
                g.attrs["NX_class"] = "NXcollection"
        g["last"] = 1.0
        g["last"].attrs["units"] = "m"
        f["last"] = [1]
    return {"groups nested deeper than 1000": 1}


def catalog_case(job):
    path = os.path.join(job["dir"], f"case{job['n']}.h5")
    keep = False
    try:
        events = cases.make_file(job, path)
        v = worker.op_validate(dict(file=path, ref=job["ref"], want="findings catalog"))
        if "exc" in v:
            keep = True
            return dict(exc=v["exc"], file=path)
        with h5py.File(path, "r") as f:
            root = h5model.read(f, 20000)
            nodes = list(root.walk())
            want = {}
            for n in nodes:
                want[n.addr] = [n.cp, n.kind, n.name, None if n.parent is None else n.parent.addr]
                for a in n.attrs.values():
                    if a.addr is not None and "@" not in a.name:
                        want[a.addr] = [a.cp, "attribute", a.name, n.addr]
            ignore = {k for k in want if k.count("@") > (1 if want[k][1] == "attribute" else 0)}
            for n in nodes:
                if "@" in n.addr:
                    ignore.add(n.addr)
                    ignore.update(a.addr for a in n.attrs.values())
                for a in n.attrs.values():
                    if "@" in a.name:
                        ignore.add(a.addr)
            problems = []
            got = {}
            for addr, cp, name, kind, own, parent in v["addresses"]:
                if addr is None or addr in ignore or any(addr.startswith(i) for i in ignore if i):
                    continue
                got[addr] = [cp, kind, name, parent]
                if own != addr:
                    problems.append(["catalog key is not the address of the item", addr, own])
            for a in want:
                if a in ignore:
                    continue
                if a not in got:
                    problems.append(["not catalogued: " + want[a][1], a, want[a]])
                elif got[a] != want[a]:
                    which = [k for k, x, y in zip(("class path", "kind", "name", "parent"), got[a], want[a]) if x != y]
                    problems.append(["wrong " + ", ".join(which), a, dict(expected=want[a], observed=got[a])])
            for a in got:
                if a not in want:
                    problems.append(["catalogued but not in file", a, got[a]])
            # index by class path
            wcp, gcp = {}, {}
            for a, (cp, *_rest) in want.items():
                if a not in ignore:
                    wcp.setdefault(cp, []).append(a)
            for cp, addrs in v["classpaths"].items():
                rest = [a for a in addrs if a is not None and a not in ignore and not any(a.startswith(i) for i in ignore if i)]
                if rest:
                    gcp[cp] = rest
            for cp in sorted(set(wcp) | set(gcp)):
                if sorted(wcp.get(cp, [])) != sorted(gcp.get(cp, [])):
                    problems.append(["index by class path differs", cp, dict(expected=sorted(wcp.get(cp, []))[:10], observed=sorted(gcp.get(cp, []))[:10])])
            ex = refmodel.expect(root, nxdlref.bundled(job["ref"]))
            missing, unexpected, n = refmodel.compare(ex, v["findings"], ["link"])
            for m in missing:
                problems.append(["link which cannot be followed is not reported", m[0], m])
            for m in unexpected:
                problems.append(["unexpected link finding", m[0], m])
            links = {}
            for nd in nodes:
                for _nm, kind in nd.links:
                    links[kind] = links.get(kind, 0) + 1
            shape = sorted({(x[0], x[1]) for x in want.values()})
        keep = bool(problems)
        return dict(file=path, problems=problems[:20], shape=shape, objects=len(nodes), items=len(want),
                    events=events, links=links, nonnx=sum(1 for x in want.values() if x[0] == NONNX))
    finally:
        if not keep:
            for fn in (path, *(os.path.splitext(path)[0] + s for s in ("_ext.h5", "_e0.h5", "_e1.h5"))):
                with contextlib.suppress(OSError):
                    os.remove(fn)


def run(ctx):
    rng = ctx.rng("catalog")
    d = ctx.mkdir("cases")
    jobs = [dict(make="check:c01.links_file", ref=common.SETS[i % 3], spec=dict(seed=rng.getrandbits(40)))
            for i in range(ctx.pick(640, 8000))]
    for depth, named in ctx.pick([(1100, 1100)], [(1100, 1100), (1100, 500), (2500, 3000)]):
        jobs.append(dict(make="check:c01.deep_file", ref=common.SETS[1], spec=dict(depth=depth, named=named)))
    jobs += cases.random_jobs(ctx, ctx.pick(180, 3000), common.SETS, links=0.4, broken=0.1, cycle=0.1, external=0.15, datatypes=0.1, nonnx=0.15)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[2:])
    for i, j in enumerate(jobs):
        j.update(op="call", call="checks.c01:catalog_case", dir=d, n=i)
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        what = {k: j[k] for k in ("make", "seed", "ref", "weights", "spec") if k in j}
        if "died" in r:
            ctx.violation("validation process died", dict(job=what, result=r))
            continue
        if "problems" not in r:
            if r["exc"]["where"]:
                ctx.violation("no catalog: validate() raised " + r["exc"]["type"], dict(job=what, exc=r["exc"]), files=[r.get("file", "")])
                continue
            raise RuntimeError(f"harness: {r}")
        for p in r["problems"]:
            ctx.violation(p[0], dict(job=what, address=p[1], detail=p[2]), files=[r["file"]])
        ctx.count("objects catalogued", r["objects"])
        ctx.count("items catalogued", r["items"])
        ctx.count("non-NeXus items", r["nonnx"])
        for k, n in r["events"].items():
            ctx.count("made: " + k, n)
        for k, n in r["links"].items():
            ctx.count("links not followed: " + k, n)
        ctx.evaluated(r["shape"] if r["objects"] >= 5 else None)
        if r["objects"] > 8:
            ctx.sample(dict(case=what, objects=r["objects"], items=r["items"], links=r["links"]), 3)
