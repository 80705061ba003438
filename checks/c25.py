"""C25: attributes which name something"""
import random

import h5py
import numpy

from vlib import cases, common, nxdlgen

RULE = ("@signal, @axes, @default, @target with names of existing and missing things (local, nested, absolute and relative paths, through soft, hard and "
        "dangling links, names with odd characters), as scalar, array, fixed and variable-length text, on root, entries, data groups and fields; "
        "non-trivial: has expected findings for such attributes, distinct by their histogram")
ASSUMPTIONS = []


def style(rng, text, many=False):
    k = rng.randrange(4)
    if k == 0 and text:
        try:
            return numpy.bytes_(text.encode("ascii"))
        except UnicodeEncodeError:
            return text
    if k == 1:
        return numpy.array([text], dtype=h5py.string_dtype())
    return text


def pointer_file(job, path):
    rng = random.Random(job["spec"]["seed"])
    with h5py.File(path, "w") as f:
        def fill(g):
            g["x"] = [1, 2]
            g["y_2"] = [1, 2]
            g["Y"] = [1, 2]
            g["bad name"] = [1]
            g["1st"] = [1]
            s = g.create_group("inner")
            s["z"] = 1
            g["soft"] = h5py.SoftLink(g.name.rstrip("/") + "/x")
            g["dangling"] = h5py.SoftLink("/nope")
            g["ext"] = h5py.ExternalLink("no_file.h5", "/x")
            g["hard"] = g["x"]
            g["back"] = g.parent

        local = ["x", "y_2", "Y", "bad name", "1st", "inner", "inner/z", "soft", "dangling", "ext", "hard", "back", "back/x", "nothere", "X", "x ",
                 "inner/none", "/x", "/entry0/data0/x", "/entry0", ".", "./x", "x/z", "é", "/nope", "x/", "y", "data0", "data1", "entry0"]
        targets = ["/", "/entry0", "/entry0/data0", "/entry0/data0/x", "/entry0/data0/nothere", "/nothere", "entry0/data0", "x", "/entry0/data0/bad name",
                   "/entry0/data0/soft", "/entry0/data0/dangling", "/entry0/data0/1st", "/entry0//data0", "/entry0/data0/", "/entry0/nope/x",
                   "/entry0/data0/inner/z", "/entry0@default", "/entry0/data0@signal", "/entry0/data0/back/x", "/entry0/back", "", "//entry0", "/entry0/data0/Y", "/entry0/data0/x/y"]
        for i in range(2):
            e = f.create_group(f"entry{i}")
            e.attrs["NX_class"] = "NXentry"
            e.attrs["default"] = style(rng, rng.choice(local))
            e["x"] = 1
            e["back"] = h5py.SoftLink("/entry0")
            for k in range(4):
                g = e.create_group(f"data{k}")
                g.attrs["NX_class"] = rng.choice(["NXdata", "NXdata", "NXdata", "NXmonitor", "NXsubentry", "NXcollection", "NXunknown"])
                fill(g)
                if rng.random() < 0.8:
                    g.attrs["signal"] = style(rng, rng.choice(local))
                if rng.random() < 0.8:
                    n = rng.randrange(4)
                    v = [rng.choice(local) for _ in range(n)]
                    if n == 0:
                        g.attrs["axes"] = rng.choice(local)
                    elif rng.random() < 0.4:
                        g.attrs["axes"] = numpy.array([t.encode("utf8") for t in v])
                    else:
                        g.attrs["axes"] = numpy.array(v, dtype=h5py.string_dtype())
                if rng.random() < 0.5:
                    g.attrs["default"] = rng.choice(local)
                if rng.random() < 0.5:
                    g.attrs["target"] = style(rng, rng.choice(targets))
                for nm in ("x", "y_2", "Y", "bad name", "1st"):
                    ds = g[nm]
                    if rng.random() < 0.6:
                        ds.attrs["target"] = style(rng, rng.choice(targets + [ds.name] * 4))
                    if rng.random() < 0.4:
                        ds.attrs["signal"] = rng.choice([1, 2, "1", "2", "x", numpy.int8(1), numpy.array([1]), numpy.array([3], dtype="i2"), "01", "", "1 ", "10", "11"])
                    if rng.random() < 0.4:
                        ds.attrs["axes"] = rng.choice(["x", "x:y_2", "x,y_2", "[x,Y]", "x:nothere", "nothere", "inner:x", "[x:y_2:Y]", "x,,y_2", "1st", "dangling", "bad name:x"])
        fill(f)
        if rng.random() < 0.7:
            f.attrs["default"] = style(rng, rng.choice(local))
        if rng.random() < 0.3:
            f.attrs["signal"] = "x"
        if rng.random() < 0.3:
            f.attrs["target"] = "/entry0"


def run(ctx):
    rng = ctx.rng("pointers")
    jobs = [dict(make="check:c25.pointer_file", ref=common.SETS[i % 3], spec=dict(seed=rng.getrandbits(40)))
            for i in range(ctx.pick(600, 8000))]
    sets = nxdlgen.user_sets(ctx, rng, ctx.pick(3, 10), patterns=1)
    jobs += [dict(make="check:c25.pointer_file", ref=sets[i % len(sets)], spec=dict(seed=rng.getrandbits(40)))
             for i in range(ctx.pick(240, 2000))]
    jobs += cases.random_jobs(ctx, ctx.pick(90, 1500), common.SETS, pointer=1.0, depth=3)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[2:])
    cases.run_cases(ctx, jobs, ["pointer"])
