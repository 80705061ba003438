"""C02: item names"""
import h5py
import numpy

from vlib import cases, common, nxdlgen
from vlib.h5gen import INVALID, RELAXED, STRICT

RULE = ("files with names made of every ASCII character (first, later, last position), sampled Unicode "
        "characters, and random trees; non-trivial: has expected validItemName findings of groups, fields or attributes, "
        "distinct by the histogram of (test, status) expected by the reference model")
ASSUMPTIONS = ["names which contain '@' are out of the stated domain", "h5py reports names as stored"]


def names_file(job, path):
    """every given name: as group, field, attribute, at several places"""
    names = job["spec"]["names"]
    with h5py.File(path, "w") as f:
        e = f.create_group("entry")
        e.attrs["NX_class"] = "NXentry"
        places = [f, e]
        for nm, cls in (("col", "NXcollection"), ("data", "NXdata"), ("plain", None)):
            g = e.create_group(nm)
            if cls:
                g.attrs["NX_class"] = cls
            places.append(g)
        d = e["data"].create_dataset("values", data=[1, 2])
        s = e["col"].create_group("sub")
        s.attrs["NX_class"] = "NXdata"
        places.append(s)
        lk = e["data"].create_dataset("linked", data=[1, 2])
        lk.attrs["target"] = "/entry/other"
        tg = e["data"].create_dataset("target", data=[1, 2])
        tg.attrs["target"] = "/entry/data/target"
        for i, nm in enumerate(names):
            for k, g in enumerate(places):
                for h5 in (g,):
                    if (i + k) % 2 and nm not in h5:
                        h5.create_dataset(nm, data=1)
                    elif nm not in h5:
                        q = h5.create_group(nm)
                        if nm.startswith("link '"):
                            q[nm[6:-1]] = h5py.SoftLink("/not/there")
                        if (i + k) % 4 == 0:
                            q.attrs["NX_class"] = "NXnote"
                if nm not in g.attrs:
                    g.attrs[nm] = 1
            for o in (d, lk, tg):
                if nm not in o.attrs:
                    o.attrs[nm] = "v"


def candidates(ctx):
    rng = ctx.rng("names")
    names = list(dict.fromkeys(STRICT + RELAXED + INVALID))
    for c in range(1, 128):
        ch = chr(c)
        if ch in "/@":
            continue
        names += [ch, "a" + ch, ch + "a", "a" + ch + "b", "A" + ch]
    n = ctx.pick(600, 8000)
    for _ in range(n):
        c = rng.choice([rng.randrange(0xA0, 0x250), rng.randrange(0x370, 0x600), rng.randrange(0x900, 0xE00),
                        rng.randrange(0x2000, 0x2200), rng.randrange(0x3000, 0x9FFF), rng.randrange(0x1F300, 0x1F600)])
        if 0xD800 <= c < 0xE000:
            continue
        ch = chr(c)
        names += [rng.choice([ch, "a" + ch, ch + "a", "X" + ch + "1", "_" + ch])]
    for k in (1, 2, 30, 62, 63):
        names += ["n" * k, "N" * k, "9" + "n" * k]
    for k in (30, 31, 32, 62, 63, 64, 65, 127, 128, 200, 255, 256, 257, 1000, 1023, 1024, 4000):
        for ch in ("n", "N"):
            names += [ch * k, ch * k + rng.choice("-+. ()é") , ch * k + "."]
    names += ["link 'x'", "link 'a b'", "link 'x1'", "validItemName", "NeXus_group", "NeXus base class", "NX_class"]
    names += ["NX_class_", "NX_Class", "nx_class", "targets", "signal_", "..a", "a..b", "A_", "__", "_", "_1", "1_", "a_", "aA", "a1A"]
    names = [n for n in dict.fromkeys(names) if n not in (".", "..") and "\0" not in n]
    return names


def run(ctx):
    names = candidates(ctx)
    ctx.count("distinct names", len(names))
    sets = list(common.SETS) + nxdlgen.user_sets(ctx, ctx.rng("sets"), ctx.pick(5, 20), patterns=1)
    jobs = []
    size = 40
    for i in range(0, len(names), size):
        jobs.append(dict(make="check:c02.names_file", ref=sets[(i // size) % len(sets)],
                         spec=dict(names=names[i:i + size])))
    # texts of NX_class
    rng = ctx.rng("classes")
    for i in range(ctx.pick(5, 20) * len(sets)):
        k = [rng.choice(["", "NX"]) + rng.choice(names + ["data", "user", "Déf", "9", "a-b"]) + rng.choice(["", "1", "x"]) for _ in range(25)]
        k += ["NX a-b", "NX-data", "NXdéf", "NX9", "NXa.b", "NX+", "NX__x", "NXData", "NXä"]
        k = [t for t in dict.fromkeys(k) if t and "/" not in t and t != "NX" and all(ord(c) for c in t)]
        jobs.append(dict(make="check:c03.class_file", ref=sets[i % len(sets)], spec=dict(names=k, style=i)))
    jobs += cases.random_jobs(ctx, ctx.pick(160, 3000), common.SETS, invalid=0.3, relaxed=0.3, depth=3)
    jobs += cases.random_jobs(ctx, ctx.pick(140, 1000), sets, label="sets", invalid=0.3, relaxed=0.3, depth=3, odd=0.2)
    jobs += cases.random_jobs(ctx, ctx.pick(30, 300), sets, label="deep", depth=7, width=2, collection=0.4)
    jobs += cases.corpus_jobs(ctx.pick(common.SETS[2:], common.SETS))
    ctx.rng("order").shuffle(jobs)  # several file sets in each process
    cases.run_cases(ctx, jobs, ["name"])
