"""C12: the tree shows every item of the file once, below the group which has it"""
import contextlib
import os
import random

import h5py
import numpy

from vlib import cases, common, h5gen, hostile, nxdlref, treemodel, worker

SLICE = "structure"
RULE = ("random trees with all kinds of links, unusual constructs, NeXus and not; the lines of the tree (with and without attributes) are matched "
        "with an independent walk of the file: same items, order, nesting, class, type and shape, link targets, attributes; "
        "non-trivial: at least 6 lines, distinct by counts of what was matched")
ASSUMPTIONS = ["@target is text (of one item)", "h5py resolves links as HDF5 defines"]


def values_file(job, path):
    """datasets of many shapes and types"""
    rng = random.Random(job["spec"]["seed"])
    nrng = numpy.random.RandomState(rng.getrandbits(31))
    with h5py.File(path, "w", track_order=rng.random() < 0.3) as f:
        g = f
        if rng.random() < 0.7:
            g = f.create_group("entry")
            g.attrs["NX_class"] = rng.choice(["NXentry", "NXentry", "other"])
        for i in range(rng.randrange(4, 16)):
            k = rng.randrange(11)
            nm = f"d{i}"
            rank = rng.choice([0, 1, 1, 1, 2, 2, 3])
            shape = tuple(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 11, 20]) for _ in range(rank))
            if k < 3:
                v = nrng.randint(-100 if k else 0, 100, size=shape).astype(rng.choice(["i1", "i2", ">i4", "i8", "u1"] if not k else ["i1", "i2", "i4", "i8", ">i8"]))
            elif k < 6:
                v = (nrng.standard_normal(shape) * 10.0 ** rng.randrange(-12, 12)).astype(rng.choice(["f4", "f8", ">f4", "f2"]))
                if v.size and rng.random() < 0.2:
                    v = numpy.array(v)
                    v.ravel()[rng.randrange(v.size)] = rng.choice([numpy.nan, numpy.inf, -numpy.inf, 0])
            elif k == 6:
                words = ["a", "b c", "µm", "", "x, y", "[z]", "1.5", "=", "line\nbreak", "...", "tab\t"]
                v = rng.choice(words) if rank == 0 else [rng.choice(words) for _ in range(rng.randrange(1, 9))]
                style = rng.randrange(3)
                if style == 1:
                    v = numpy.bytes_(v.encode("utf8") or b"q") if rank == 0 else numpy.array([x.encode("utf8") or b"q" for x in v])
            elif k == 7:
                v = nrng.randint(0, 2, size=shape).astype(bool)
            elif k == 9:  # close to the ends of the range of the type
                t = rng.choice(["u8", "i8", ">u8", "u4", "i4", "u2", "i2", "u1", "i1", ">u4"])
                info = numpy.iinfo(t)
                v = numpy.array([rng.choice([info.max, info.min, info.max // 2, info.max // 2 + 1, info.max - 1, info.min + 1, 0, 1]) for _ in range(int(numpy.prod(shape)))],
                                dtype=t).reshape(shape)
            elif k == 10:
                t = rng.choice(["f8", "f4", "f2"])
                info = numpy.finfo(t)
                v = numpy.array([rng.choice([info.max, info.min, info.tiny, info.eps, 0.1, -0.0, 1 / 3, 123456789, 1e-5, 2.5]) for _ in range(int(numpy.prod(shape)))]).astype(t).reshape(shape)
            else:
                v = numpy.array(rng.choice([2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1, 0.1, 1e300, 5e-324]))
                if rng.random() < 0.5:
                    v = v.reshape((1,))
            g[nm] = v
            for a in range(rng.randrange(3)):
                g[nm].attrs[f"a{a}"] = rng.choice([1, 2.5, "text", "µ", ["a", "b"], [1, 2, 3], [0.5, 1e10], numpy.float32(0.1), True, "", "q\"uote", "li\nne", numpy.int8(-3), numpy.arange(40), ["x"], 1e-300,
                                                      numpy.arange(12).reshape(3, 4), numpy.array([True, False]), numpy.arange(1200), numpy.linspace(-1, 1, 1500), numpy.arange(1500.0).reshape(5, 300),
                                                      numpy.arange(24, dtype="u1").reshape(2, 3, 4), numpy.array([1e-8, 1, 1e8]), numpy.float64("nan"), numpy.array([numpy.nan, 1.0]), -2**63, 2**64 - 1, numpy.array([2**63 - 1, -1])])
    return {}


def case(job):
    path = os.path.join(job["dir"], f"case{job['n']}.h5")
    keep = True
    try:
        if job["make"] == "hostile":
            rng = random.Random(job["seed"])
            with h5py.File(path, "w") as f:
                hostile.base(f)
                hostile.inject(f, job["names"], rng)
        else:
            cases.make_file(job, path)
        out = dict(problems=[], counts={}, file=path, partial=0, lines=0)
        for attrs, m in job["options"]:
            r = worker.op_tree(dict(file=path, attrs=attrs, max=m, again=attrs))
            if "exc" in r:
                out["problems"].append(["structure", "no tree: " + r["exc"]["type"], [r["exc"]]])
                return out
            if r["report"] is None:
                out["problems"].append(["structure", "no tree", []])
                return out
            if "again" in r and r["again"] != r["report"]:
                out["problems"].append(["structure", "second report is not the same", []])
            p, c, complete = treemodel.check(path, r["report"], attrs, m)
            out["problems"] += [x + [dict(attributes=attrs, max=m)] for x in p]
            out["partial"] += not complete
            out["lines"] += len(r["report"])
            for k, n in c.items():
                out["counts"][k] = out["counts"].get(k, 0) + n
        keep = bool(out["problems"])
        return out
    finally:
        if not keep:
            base = os.path.splitext(path)[0]
            for fn in (path, *(base + s for s in ("_ext.h5", "_e0.h5", "_e1.h5", "_other.h5", "_other.txt"))):
                with contextlib.suppress(OSError):
                    os.remove(fn)


def jobs_for(ctx, slc):
    rng = ctx.rng("tree")
    jobs = []
    structure = slc == "structure"
    for i in range(ctx.pick(400, 6000) if structure else 20):
        jobs.append(dict(make="check:c01.links_file", ref=common.SETS[i % 3], spec=dict(seed=rng.getrandbits(40))))
    for i in range(ctx.pick(250, 4000) if structure else ctx.pick(900, 20000)):
        jobs.append(dict(make="check:c12.values_file", ref="v3.3", spec=dict(seed=rng.getrandbits(40))))
    jobs += cases.random_jobs(ctx, ctx.pick(250, 4000) if structure else ctx.pick(120, 3000), common.SETS, links=0.3, broken=0.1, cycle=0.1,
                              external=0.15, datatypes=0.1, nonnx=0.15, depth=3, nxarray=0.05)
    names = list(hostile.ALL)
    for i in range(ctx.pick(200, 3000) if structure else ctx.pick(40, 1000)):
        jobs.append(dict(make="hostile", seed=rng.getrandbits(40), names=rng.sample(names, rng.choice([1, 2, 3])), ref="v3.3"))
    jobs += cases.corpus_jobs(common.SETS[:1])
    for j in jobs:
        if structure:
            j["options"] = [[True, rng.choice([3, 5, 10])], [False, 5]]
        else:
            j["options"] = [[rng.random() < 0.7, m] for m in rng.sample([1, 2, 3, 4, 5, 6, 7, 9, 12, 50, -1, 0], 3)]
    return jobs


def drive(ctx, slc):
    d = ctx.mkdir("cases")
    jobs = jobs_for(ctx, slc)
    for i, j in enumerate(jobs):
        j.update(op="call", call="checks.c12:case", dir=d, n=i)
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        what = {k: j[k] for k in ("make", "seed", "ref", "weights", "spec", "names", "options") if k in j}
        if "problems" not in r:
            if "died" in r:
                ctx.violation("process died", dict(job=what, result=r))
                continue
            raise RuntimeError(f"harness: {r} {what}")
        for p in r["problems"]:
            if p[0] == slc:
                ctx.violation(p[1], dict(job=what, detail=p[2:]), files=[r["file"]])
        for k, n in r["counts"].items():
            ctx.count("matched: " + k, n)
        ctx.count("trees compared in part (target out of domain)", r["partial"])
        ctx.count("lines", r["lines"])
        ctx.evaluated(r["counts"] if r["lines"] > 5 else None, len(j["options"]))
        if r["lines"] > 12:
            ctx.sample(dict(case=what, matched=r["counts"]), 3)


def run(ctx):
    drive(ctx, "structure")
