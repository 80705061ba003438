"""C06: default plot"""
import itertools
import random

import h5py
import numpy

from vlib import cases, common, nxdlgen

RULE = ("entries x NXdata x kinds of @signal (good, missing field, names a group, path) x @default at root & entry x "
        "@signal=1 markers of fields x file set; non-trivial: the reference model gives a definite verdict, distinct by construction parameters")
ASSUMPTIONS = []


def plot_file(job, path):
    s = job["spec"]
    rng = random.Random(s["seed"])
    with h5py.File(path, "w", track_order=rng.random() < 0.5) as f:
        for i, ent in enumerate(s["entries"]):
            above = f
            for nm, cls in ent.get("below", []):
                above = above.require_group(nm)
                if cls:
                    above.attrs["NX_class"] = cls
            e = above.create_group(f"entry{i}")
            e.attrs["NX_class"] = ent["cls"]
            if ent["default"] is not None:
                e.attrs["default"] = ent["default"]
            for k, d in enumerate(ent["data"]):
                parent = e
                if d["deep"]:
                    parent = e.require_group("instrument")
                    parent.attrs["NX_class"] = "NXinstrument"
                g = parent.create_group(f"data{k}")
                g.attrs["NX_class"] = d["cls"]
                g["x"] = [1, 2]
                g["y"] = [3, 4]
                g["z"] = [3, 4]
                q = g.create_group("grp")
                q["w"] = [1]
                g["dangling"] = h5py.SoftLink("/nowhere")
                g["soft"] = h5py.SoftLink(g.name + "/y")
                if d["signal"] is not None:
                    v = d["signal"]
                    if v == "abs":
                        v = g.name + "/y"
                    if d["style"] == 1:
                        v = numpy.bytes_(v)
                    elif d["style"] == 2:
                        v = numpy.array([v], dtype=h5py.string_dtype())
                    g.attrs["signal"] = v
                for nm, v in d["markers"].items():
                    g[nm].attrs["signal"] = {"i1": 1, "s1": "1", "i2": 2, "s2": "2", "a1": numpy.array([1]), "b1": numpy.bytes_(b"1"),
                                             "u1": numpy.uint8(1), "s01": "01", "blank": "1 ", "lead": " 1", "plus": "+1", "wide": "\uff11",
                                             "t1": numpy.array([b"1"])}[v]
        if s["root_default"] is not None:
            f.attrs["default"] = s["root_default"]


def spec(rng, n_entries):
    entries = []
    for i in range(n_entries):
        data = []
        for k in range(rng.choice([0, 1, 1, 2, 2, 3])):
            data.append(dict(
                cls=rng.choice(["NXdata"] * 6 + ["NXmonitor", "NXdata2", "plain"]),
                deep=rng.random() < 0.15,
                signal=rng.choice([None, None, "y", "y", "x", "y", "nothere", "grp", "grp/w", "soft", "dangling", "abs"]) if rng.random() < 0.8 else None,
                style=rng.randrange(3),
                markers={nm: rng.choice(["i1", "s1", "i2", "s2", "a1", "b1", "u1", "s01", "i1", "s1", rng.choice(["blank", "lead", "plus", "wide", "t1"])]) for nm in "xyz" if rng.random() < 0.25},
            ))
        entries.append(dict(
            cls=rng.choice(["NXentry"] * 8 + ["NXcollection", "plain", "NXsubentry"]),
            default=rng.choice([None, "data0", "data1", "nothere", "x", "data0", "/entry0/data0"]),
            data=data,
            below=rng.choice([[["c", "NXcollection"]], [["c", None]], [["e", "NXentry"]], [["c", "NXcollection"], ["d", "NXcollection"]]]) if rng.random() < 0.12 else [],
        ))
    return dict(entries=entries, root_default=rng.choice([None, "entry0", "entry1", "nothere", "/entry0"]), seed=rng.getrandbits(32))


def systematic():
    """one or two NXdata, all combinations of a few choices"""
    out = []
    for sig, mark, dflt, rdflt in itertools.product(
            [None, "y", "nothere", "grp"], [{}, {"y": "i1"}, {"y": "i1", "x": "s1"}, {"y": "i2"}],
            [None, "data0"], [None, "entry0"]):
        out.append(dict(entries=[dict(cls="NXentry", default=dflt, data=[
            dict(cls="NXdata", deep=False, signal=sig, style=0, markers=mark)])], root_default=rdflt, seed=1))
    for s1, s2, dflt in itertools.product([None, "y", "nothere"], [None, "y", "nothere"], [None, "data0", "data1"]):
        out.append(dict(entries=[dict(cls="NXentry", default=dflt, data=[
            dict(cls="NXdata", deep=False, signal=s, style=0, markers={}) for s in (s1, s2)])], root_default="entry0", seed=1))
    for n, dflt in itertools.product([0, 1, 2], ["entry0", "entry1", None]):
        out.append(dict(entries=[dict(cls="NXentry", default="data0", data=[
            dict(cls="NXdata", deep=False, signal="y", style=0, markers={})]) for _ in range(n)], root_default=dflt, seed=1))
    return out


def extra_for(ctx):
    def extra(job, r, what):
        obs = r["observed_plot"]
        if r["plot"] == "unspecified":
            ctx.count("unspecified")
            return
        if len(obs) != 1 or obs[0][0] != "/":
            ctx.violation("not exactly one default plot finding at the root", dict(job=what, observed=obs), files=[r["file"]])
            return
        status, comment = obs[0][2:]
        ctx.count("verdict " + status)
        if status == "OK":
            addr = comment.split(": ", 1)[-1]
            ctx.count("default plot address checked")
            if addr not in r["plot"]:
                ctx.violation("default plot finding names the wrong item",
                              dict(job=what, observed=comment, acceptable=r["plot"]), files=[r["file"]])
        ctx.evaluated(dict(job=what), n=0)

    return extra


def run(ctx):
    rng = ctx.rng("plots")
    jobs = []
    for s in common.SETS:
        for sp in systematic():
            jobs.append(dict(make="check:c06.plot_file", ref=s, spec=sp))
    for i in range(ctx.pick(800, 9000)):
        jobs.append(dict(make="check:c06.plot_file", ref=common.SETS[i % 3], spec=spec(rng, rng.choice([0, 1, 1, 1, 2, 2, 3]))))
    sets = nxdlgen.user_sets(ctx, rng, ctx.pick(5, 20), patterns=0.2)
    for i in range(ctx.pick(200, 1500)):
        jobs.append(dict(make="check:c06.plot_file", ref=sets[i % len(sets)], spec=spec(rng, rng.choice([0, 1, 1, 1, 2, 2, 3]))))
    jobs += cases.random_jobs(ctx, ctx.pick(60, 1000), common.SETS, pointer=1, depth=3)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[:1])
    cases.run_cases(ctx, jobs, ["plot"], extra=extra_for(ctx))
