"""C05: application definitions"""
import random

import h5py
import numpy

from vlib import cases, common, nxdlgen, nxdlref
from vlib.h5gen import near

RULE = ("for every application definition (and contributed and base classes) of every bundled file set: entries with all fields, "
        "each field missing, wrong values of enumerations, fields replaced by groups or dangling links, in NXentry and NXsubentry, several in one file; "
        "non-trivial: has expected findings of an application definition, distinct by their histogram")
ASSUMPTIONS = ["the first value of a field is compared with an enumeration"]


def put_text(rng, g, name, text):
    k = rng.randrange(5)
    if k == 0:
        g.create_dataset(name, data=text)
    elif k == 1:
        g.create_dataset(name, data=numpy.bytes_(text.encode("utf8")))
    elif k == 2:
        g.create_dataset(name, data=[text.encode("utf8")])
    elif k == 3:
        g.create_dataset(name, data=numpy.array([text], dtype=h5py.string_dtype()))
    else:
        g.create_dataset(name, data=numpy.array(text, dtype=h5py.string_dtype()))


def value_of(rng, spec, right):
    if right:
        return rng.choice(spec.enumerations)
    return rng.choice(["wrong", spec.enumerations[0] + "x", spec.enumerations[0].upper() + "?", spec.enumerations[-1][:-1] + "~",
                       " " + spec.enumerations[0], *(near(rng, spec.enumerations) for _ in range(5))])


def appdef_file(job, path):
    spec = job["spec"]
    rng = random.Random(spec["seed"])
    fs = nxdlref.bundled(job["ref"])
    with h5py.File(path, "w") as f:
        for i, (name, how) in enumerate(spec["cases"]):
            e = f.create_group(f"entry{i}")
            e.attrs["NX_class"] = "NXentry"
            if rng.random() < 0.3:
                q = e.create_group("sub")
                q.attrs["NX_class"] = "NXsubentry"
                if rng.random() < 0.3:
                    put_text(rng, e, "definition", rng.choice(list(fs.classes)))
                e = q
            elif rng.random() < 0.05:
                e.attrs["NX_class"] = "NXcollection"  # not an entry
            put_text(rng, e, "definition", name)
            d = fs.classes.get(name)
            entry = fs.entry_of(name) if d else None
            if entry is None:
                continue
            fields = list(entry.fields.items())
            skip, wrong = set(), set()
            kind, _, arg = how.partition(":")
            if kind == "miss":
                skip = {arg}
            elif kind == "wrong":
                wrong = {arg}
            elif kind == "random":
                skip = {n for n, _ in fields if rng.random() < 0.4}
                wrong = {n for n, _ in fields if rng.random() < 0.4}
            for n, sp in fields:
                if n in e or n in skip:
                    if n in skip and n not in e and rng.random() < 0.3:
                        h = rng.randrange(3)
                        if h == 0:
                            e.create_group(n).attrs["NX_class"] = "NXnote"
                        elif h == 1:
                            e[n] = h5py.SoftLink("/nowhere/at/all")
                        else:
                            e.create_group(n)
                    continue
                if sp.enumerations:
                    put_text(rng, e, n, value_of(rng, sp, n not in wrong))
                    if rng.random() < 0.2:  # more than one value, the first one counts
                        t = value_of(rng, sp, n not in wrong)
                        del e[n]
                        e[n] = numpy.array([t, "zzz", sp.enumerations[0]], dtype=h5py.string_dtype())
                else:
                    e[n] = rng.choice([1, "text", [1.0, 2.0], "2001-01-01"])


def run(ctx):
    rng = ctx.rng("appdef")
    jobs = []
    sets = nxdlgen.user_sets(ctx, rng, ctx.pick(5, 20), patterns=0.2)
    for s in list(common.SETS) + sets:
        fs = nxdlref.bundled(s)
        todo = []
        for nm, d in sorted(fs.classes.items()):
            entry = fs.entry_of(nm)
            todo.append((nm, "all"))
            if entry is None:
                continue
            if d.category != "base_classes" or rng.random() < ctx.pick(0.1, 1):
                for f, sp in entry.fields.items():
                    todo.append((nm, "miss:" + f))
                    if sp.enumerations:
                        todo.append((nm, "wrong:" + f))
                        todo.append((nm, "all"))
                for _ in range(ctx.pick(3, 20)):
                    todo.append((nm, "random"))
        for nm in ("NXnosuch", "", "nxsas", "NXsas ", "NXSAS", "NXsas\n", "sas", "3"):
            todo.append((nm, "all"))
        rng.shuffle(todo)
        ctx.count("definition cases", len(todo))
        for i in range(0, len(todo), 10):
            jobs.append(dict(make="check:c05.appdef_file", ref=s, spec=dict(cases=todo[i:i + 10], seed=rng.getrandbits(40))))
    jobs += cases.random_jobs(ctx, ctx.pick(120, 1500), common.SETS, appdef=1, depth=3)
    jobs += cases.random_jobs(ctx, ctx.pick(60, 500), sets, label="sets", appdef=1, depth=3)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[:2])
    cases.run_cases(ctx, jobs, ["appdef"])
