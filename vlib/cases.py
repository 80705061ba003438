"""One case = make a file, validate it with the real code, judge the findings.

Runs in a worker process (see vlib.worker).
"""

import collections
import contextlib
import os
import random
import shutil

import h5py

from . import h5gen, h5model, nxdlref, refmodel, worker


def make_file(job, path):
    """create the file for this job"""
    kind, _, arg = job["make"].partition(":")
    if kind == "random":
        fs = nxdlref.bundled(job["ref"])
        g = h5gen.random_file(random.Random(job["seed"]), path, fs, **job.get("weights", {}))
        return dict(g.events)
    if kind == "corpus":
        shutil.copyfile(arg, path)
        return {}
    # module.function of a check
    import importlib

    mod, fn = arg.split(".")
    return getattr(importlib.import_module("checks." + mod), fn)(job, path) or {}


def judge(path, ref, findings, slices):
    with h5py.File(path, "r") as f:
        root = h5model.read(f)
        ex = refmodel.expect(root, nxdlref.bundled(ref))
        missing, unexpected, n = refmodel.compare(ex, findings, slices)
        shape = collections.Counter()
        for slc, addr, test, status, tag in ex.rows:
            if slc in slices:
                shape[f"{test.split('[')[0].split('=')[0][:28]}|{status}|{(tag or '').split(':')[0]}"] += 1
        out = dict(missing=missing[:20], unexpected=unexpected[:20], compared=n, shape=dict(shape),
                   plot=ex.notes.get("plot"), dontcare=len(ex.dontcare))
    return out


def observed_plot(findings):
    return [f for f in findings if f[1] == "NeXus default plot"]


def case(job):
    path = os.path.join(job["dir"], f"case{job['n']}.h5")
    keep = False
    try:
        events = make_file(job, path)
        v = worker.op_validate(dict(file=path, ref=job["ref"], fresh=job.get("fresh", False)))
        if "exc" in v:
            keep = True
            return dict(exc=v["exc"], file=path)
        out = judge(path, job["ref"], v["findings"], job["slices"])
        out["events"] = events
        if "plot" in job["slices"]:
            out["observed_plot"] = observed_plot(v["findings"])
        if out["missing"] or out["unexpected"]:
            keep = True
        out["file"] = path
        return out
    finally:
        if not keep and not job.get("keep"):
            for fn in (path, os.path.splitext(path)[0] + "_ext.h5"):
                with contextlib.suppress(OSError):
                    os.remove(fn)


def run_cases(ctx, jobs, slices, extra=None, sample_key=None):
    """run the jobs, record violations; the verdict on findings in ``slices``"""
    d = ctx.mkdir("cases")
    for i, j in enumerate(jobs):
        j.update(op="call", call="vlib.cases:case", dir=d, n=i, slices=list(slices))
        j.setdefault("make", "random:")
    results = ctx.run_jobs(jobs)
    for j, r in zip(jobs, results):
        what = {k: j[k] for k in ("make", "seed", "ref", "weights", "spec") if k in j}
        if r is None or "died" in r:
            ctx.violation("validation process died", dict(job=what, result=r))
            continue
        if "exc" in r and "compared" not in r:
            where = (r["exc"]["where"] or [""])[-1]
            if not any("/punx/" in w or w for w in r["exc"]["where"]):
                raise RuntimeError(f"harness: {r['exc']} in {what}")
            ctx.violation(f"no verdict: validate() raised {r['exc']['type']} in {where}",
                          dict(job=what, exc=r["exc"]), files=[r.get("file", "")])
            continue
        if r["missing"] or r["unexpected"]:
            first = (r["missing"] or r["unexpected"])[0]
            ctx.violation(
                f"finding {'missing' if r['missing'] else 'unexpected'}: test={first[1].split('[')[0].split('=')[0]!r} status={first[2]}",
                dict(job=what, missing=r["missing"], unexpected=r["unexpected"],
                     legend="[address, test, status, tag, count]"), files=[r["file"]])
        ctx.count("findings compared", r["compared"])
        for k, n in r["shape"].items():
            ctx.count("expected " + k, n)
        ctx.evaluated(r["shape"] if r["compared"] else None)
        if extra is not None:
            extra(j, r, what)
        if r["compared"] > 3:
            ctx.sample(dict(case=what, compared=r["compared"], shape=r["shape"]), 3)
    return results


def random_jobs(ctx, n, sets, label="", **weights):
    r = ctx.rng("files", label)
    return [dict(make="random:", seed=r.getrandbits(48), ref=sets[i % len(sets)], weights=weights)
            for i in range(n)]


def corpus_jobs(sets):
    """data files of the repository"""
    from . import common

    d = os.path.join(common.REPO, "punx", "data")
    return [dict(make="corpus:" + os.path.join(d, fn), ref=s)
            for fn in sorted(os.listdir(d)) for s in sets
            if h5py.is_hdf5(os.path.join(d, fn))]
