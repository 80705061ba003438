"""C10: every HDF5 file gets a complete report and tree, no exceptions, in bounded time"""
import contextlib
import io
import os
import random

import h5py

from vlib import cases, common, h5gen, hostile, nxdlref, worker

RULE = ("all %d unusual HDF5 constructs alone, and random combinations of 1-6 of them injected in random NeXus files; each validated, "
        "reported, shown as tree (several options) and asked whether it is NeXus, part of them by the command line in an ASCII locale; "
        "distinct by (set of constructs, file set)" % (len(hostile.ALL) + len(hostile.EXTREME)))
ASSUMPTIONS = ["groups with @NX_class 'NX' or with '/' in the text are out of the stated domain",
               "exponentially many addresses (chains of hard links) are out of the stated domain"]
STATUSES = "OK NOTE WARN ERROR TODO UNUSED COMMENT OPTIONAL".split()


def make(job, path):
    rng = random.Random(job["seed"])
    if job["alone"] in hostile.EXTREME:
        with h5py.File(path, "w") as f:
            job["expected"] = hostile.EXTREME[job["alone"]](f, *hostile.base(f))
        return [job["alone"]]
    if job["alone"]:
        with h5py.File(path, "w") as f:
            e, d = hostile.base(f)
            hostile.ALL[job["alone"]](f, e, d, "_0")
        return [job["alone"]]
    if job.get("plain"):
        with h5py.File(path, "w") as f:
            hostile.base(f)
    else:
        h5gen.random_file(rng, path, nxdlref.bundled(job["ref"]), depth=3, width=4, cycle=0.05, datatypes=0.1, nxarray=0.05)
    with h5py.File(path, "a") as f:
        return hostile.inject(f, job["names"], rng)


def case(job):
    from punx import h5tree, utils

    path = os.path.join(job["dir"], f"case{job['n']}.h5")
    out = dict(file=path, problems=[])
    out["constructs"] = make(job, path)
    bad = out["problems"]
    sink = io.StringIO()

    def attempt(what, fn):
        try:
            with contextlib.redirect_stdout(sink):
                return fn()
        except BaseException as exc:
            info = worker.exc_info(exc)
            bad.append([f"{what} raised {info['type']} in {(info['where'] or ['?'])[-1]}", info])

    v = worker.get_validator(job["ref"])
    attempt("validate()", lambda: v.validate(path))
    if not bad:
        for f in v.validations:
            if not (isinstance(f.h5_address, str) and f.h5_address.startswith("/")) or str(f.status) not in STATUSES or not isinstance(f.test_name, str):
                bad.append(["finding without address, test, or status", [repr(f.h5_address), f.test_name, str(f.status)]])
                break
        if not v.validations:
            bad.append(["no findings", None])
        if not any(f.test_name == "NeXus default plot" for f in v.validations):
            bad.append(["validation did not come to its end", [str(f) for f in v.validations[-3:]]])
        addresses = {f.h5_address for f in v.validations}
        for a in job.get("expected", []):
            if a not in addresses:
                bad.append(["no finding of an item of the file", a[-200:]])
        attempt("print_report()", lambda: v.print_report())
        attempt("print_report(statuses)", lambda: v.print_report(["ERROR", "OK"]))
        attempt("finding_summary()", lambda: v.finding_summary())
        attempt("finding_score()", lambda: v.finding_score())
        attempt("str()", lambda: [str(f) for f in v.validations] + [str(i) for items in v.classpaths.values() for i in items])
        out["findings"] = len(v.validations)
    attempt("close()", v.close)
    attempt("isNeXusFile()", lambda: utils.isNeXusFile(path))
    n = 0
    for attrs in (True, False):
        for m in job["max"]:
            def show():
                t = h5tree.Hdf5TreeView(path)
                t.array_items_shown = m
                r = t.report(attrs)
                assert isinstance(r, list) and len(r) > 0 and all(isinstance(x, str) for x in r)
                "\n".join(r).encode("utf8")
                return len(r)
            n += attempt(f"tree", show) or 0
    out["lines"] = n
    if not bad and not job.get("keep"):
        for fn in os.listdir(job["dir"]):
            if fn.startswith(f"case{job['n']}.") or fn.startswith(f"case{job['n']}_"):
                os.remove(os.path.join(job["dir"], fn))
    return out


def run(ctx):
    rng = ctx.rng("hostile")
    d = ctx.mkdir("cases")
    names = list(hostile.ALL)
    jobs = []

    def add(**kw):
        n = len(jobs)
        jobs.append(dict(dict(op="call", call="checks.c10:case", dir=d, n=n, cpu=120, seed=rng.getrandbits(40), alone=None,
                              ref=common.SETS[n % 3], max=[5] if n % 2 else [rng.choice([1, 2, 3, 4, 100])]), **kw))

    for nm in names:
        for s in common.SETS:
            add(alone=nm, ref=s, keep=(s == "v3.3"))
    for i, nm in enumerate(hostile.EXTREME):
        add(alone=nm, ref=common.SETS[1 + i % 2], max=[5], big=True)
    cli = [i for i, j in enumerate(jobs) if j["ref"] == "v3.3"]
    for i in range(ctx.pick(150, 8000)):
        add(names=[rng.choice(names) for _ in range(rng.choice([1, 2, 3, 6]))], plain=i % 3 == 0)
    results = ctx.run_jobs(jobs)
    for j, r in zip(jobs, results):
        what = {k: j[k] for k in ("seed", "ref", "alone", "names", "plain") if k in j}
        if "died" in r:
            ctx.violation("process died, or did not end: " + (j["alone"] or "combination"), dict(job=what, result=r))
            continue
        if "problems" not in r:
            raise RuntimeError(f"harness: {r} {what}")
        for p in r["problems"]:
            ctx.violation(p[0], dict(job=what, constructs=r["constructs"], detail=p[1]), files=[r["file"]])
        for c in r["constructs"]:
            ctx.count("construct " + c)
        ctx.count("findings", r.get("findings", 0))
        ctx.count("lines of tree", r["lines"])
        ctx.evaluated([sorted(r["constructs"]), j["ref"]])
        ctx.sample(dict(case=what, findings=r.get("findings"), lines=r["lines"]))

    # command line, with a terminal that knows only ASCII
    ascii_ = dict(LANG="C", LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    todo = [(cmd, i) for i in cli for cmd in ("validate", "tree")]
    if not ctx.thorough:
        todo = rng.sample(todo, 40)

    def one(item):
        cmd, i = item
        fn = results[i]["file"] if "file" in results[i] else None
        if fn is None or not os.path.exists(fn):
            return item, None
        args = [cmd, fn] + (["-f", "v3.3"] if cmd == "validate" else [])
        return item, ctx.punx(args, env=ascii_)

    for (cmd, i), r in ctx.parallel(one, todo):
        if r is None:
            continue
        rc, out, err = r
        ctx.evaluated(["cli", cmd, jobs[i]["alone"]])
        ctx.count("command line " + cmd)
        end = "NeXus definitions version: v3.3" if cmd == "validate" else "entry:NXentry"
        if rc != 0 or "Traceback" in err or end not in out:
            ctx.violation(f"punx {cmd} did not come to its end", dict(construct=jobs[i]["alone"], exit_code=rc, stderr=err[-800:]),
                          files=[results[i].get("file", "")])
