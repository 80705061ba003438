"""C04: accounting of base class members"""
import h5py

from vlib import cases, common, nxdlgen, nxdlref
from vlib.h5gen import near

RULE = ("for every class of every bundled file set: groups with all, none, and random subsets of the fields, groups and "
        "attributes of the class, swapped kinds, dangling links with such names, and extra names; plus random trees; "
        "non-trivial: has expected membership findings, distinct by their histogram")
ASSUMPTIONS = []


def members_file(job, path):
    import random

    spec = job["spec"]
    rng = random.Random(spec["seed"])
    fs = nxdlref.bundled(job["ref"])
    with h5py.File(path, "w") as f:
        e = f.create_group("entry")
        e.attrs["NX_class"] = "NXentry"
        for i, cls in enumerate(spec["classes"]):
            d = fs.classes[cls]
            for how in spec["how"]:
                if cls == "NXroot" and how == "root":
                    continue
                parent = rng.choice([e, e, f])
                q = parent.create_group(f"g{i}_{how}")
                q.attrs["NX_class"] = cls
                names = [("f", n) for n in d.fields] + [("g", n) for n in d.groups] + [("a", n) for n in d.attributes]
                if how == "some":
                    names = [n for n in names if rng.random() < 0.5]
                elif how == "one":
                    names = rng.sample(names, min(1, len(names)))
                elif how == "butone" and names:
                    names.remove(rng.choice(names))
                elif how == "none":
                    names = []
                for kind, nm in names:
                    if kind == "a":
                        enum = d.attributes[nm]
                        q.attrs[nm] = rng.choice(enum + ["other", near(rng, enum), near(rng, enum)]) if enum else rng.choice(["text", "x"])
                        continue
                    if nm in q:
                        continue
                    k = rng.random() if how in ("some", "swap") else 1
                    if k < 0.1:
                        q[nm] = h5py.SoftLink("/no/such/thing")
                    elif k < 0.15:
                        q[nm] = h5py.SoftLink(e.name)
                    elif (kind == "f") != (how == "swap"):
                        q[nm] = 1
                    else:
                        h = q.create_group(nm)
                        if kind == "g":
                            h.attrs["NX_class"] = d.groups[nm].type
                        else:
                            h.attrs["NX_class"] = "NXnote"
                for nm in ("extra", "Extra2", list(fs.classes[rng.choice(spec["classes"])].fields or ["zz"])[0]):
                    if nm not in q and rng.random() < 0.5 and q.get(nm, getlink=True) is None:
                        q[nm] = 2
                other = fs.classes[rng.choice(spec["classes"])]
                for nm in other.groups:
                    if rng.random() < 0.1 and nm not in q and q.get(nm, getlink=True) is None:
                        q.create_group(nm).attrs["NX_class"] = other.groups[nm].type
                for nm in list(other.attributes) + ["unknown_attr", "Target"]:
                    if rng.random() < 0.3:
                        q.attrs.setdefault(nm, "v") if hasattr(q.attrs, "setdefault") else None


def run(ctx):
    rng = ctx.rng("members")
    jobs = []
    sets = nxdlgen.user_sets(ctx, rng, ctx.pick(5, 20), patterns=0.2)
    for s in list(common.SETS) + sets:
        fs = nxdlref.bundled(s)
        every = sorted(fs.classes)
        for rep in range(ctx.pick(1, 12)):
            rng.shuffle(every)
            for i in range(0, len(every), 8):
                jobs.append(dict(
                    make="check:c04.members_file", ref=s,
                    spec=dict(classes=every[i:i + 8], seed=rng.getrandbits(40),
                              how=["all", "some", "none", "one", "butone", "swap"])))
        ctx.count("classes", len(every))
    jobs += cases.random_jobs(ctx, ctx.pick(120, 2000), common.SETS, depth=3)
    jobs += cases.random_jobs(ctx, ctx.pick(60, 500), sets, label="sets", depth=3)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[:1])
    cases.run_cases(ctx, jobs, ["member"])
