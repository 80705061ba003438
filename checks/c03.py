"""C03: @NX_class verdicts"""
import h5py
import numpy

from vlib import cases, common, nxdlgen, nxdlref
from vlib.h5gen import NON_CLASSES, ODD_CLASSES

RULE = ("every class of every bundled file set, and altered class names, as @NX_class of groups at several "
        "places (below root, entry, collection, subentry, unknown class) and of datasets, plus random trees; "
        "non-trivial: has expected NX_class findings, distinct by their histogram and class names")
ASSUMPTIONS = ["NX_class values with '/' are out of the stated domain"]


def class_file(job, path):
    names = job["spec"]["names"]
    style = job["spec"]["style"]
    with h5py.File(path, "w") as f:
        e = f.create_group("entry")
        e.attrs["NX_class"] = "NXentry"
        places = [("r", f), ("e", e)]
        for nm, cls in (("col", "NXcollection"), ("sub", "NXsubentry"), ("unk", "NXunknown_thing"),
                        ("data", "NXdata"), ("plain", None), ("ins", "NXinstrument")):
            g = e.create_group(nm)
            if cls:
                g.attrs["NX_class"] = cls
            places.append((nm, g))
        for i, nm in enumerate(names):
            for k, (label, g) in enumerate(places):
                q = g.create_group(f"g{i}")
                val = nm
                if (i + k + style) % 3 == 0 and nm:
                    val = numpy.bytes_(nm.encode("utf8"))
                q.attrs["NX_class"] = val
                if (i + k) % 5 == 0:
                    q["x"] = 1
                    h = q.create_group("inner")
                    h.attrs["NX_class"] = names[(i * 7 + 3) % len(names)]
            ds = e["data"].create_dataset(f"d{i}", data=1)
            ds.attrs["NX_class"] = nm


def run(ctx):
    rng = ctx.rng("names")
    jobs = []
    sets = nxdlgen.user_sets(ctx, rng, ctx.pick(4, 20))
    for s in list(common.SETS) + sets:
        fs = nxdlref.bundled(s)
        every = sorted(fs.classes)
        names = list(every)
        for nm in every:
            alt = [nm + "x", nm[:-1], nm.upper(), nm.lower(), "NX" + nm, nm + " ", " " + nm, nm.capitalize(), nm + "\n",
                   nm[:2] + nm[2:].capitalize(), nm.replace("NX", "NX_"), "nx" + nm[2:], nm[2:]]
            names += alt if ctx.thorough else rng.sample(alt, 3)
        names += [n for n in ODD_CLASSES + NON_CLASSES if n] + ["NXé", "NX-data", "NX data", "NXdéf", "NX9", "NX1", "NXa.b"]
        for t in common.SETS:  # classes of other sets
            names += [n for n in nxdlref.bundled(t).classes if n not in fs.classes]
        names = [n for n in dict.fromkeys(names) if n != "NX"]
        rng.shuffle(names)
        for i in range(0, len(names), 40):
            jobs.append(dict(make="check:c03.class_file", ref=s, spec=dict(names=names[i:i + 40], style=i)))
        ctx.count("class names", len(names))
    jobs += cases.random_jobs(ctx, ctx.pick(120, 2400), common.SETS, odd=0.35, nonnx=0.15, depth=4)
    jobs += cases.random_jobs(ctx, ctx.pick(80, 800), sets, label="sets", odd=0.35, nonnx=0.15, depth=4)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[1:2])
    cases.run_cases(ctx, jobs, ["nxclass"])
