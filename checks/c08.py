"""C08: findings depend on the file and the file set only, not on what was done before"""
import contextlib
import hashlib
import io
import os
import random
import shutil

from vlib import cases, common, filesets, worker

RULE = ("histories of 30-60 operations in one process (validate with new, reused, and several open validators; failing validations; tree; "
        "reports; NXDL managers of other file sets; validation of NXDL files; change of directory; update of a file set) under several environments (hash seed, "
        "locale, user cache); each result compared with that of a new process; distinct by (previous operation, operation, file, file set)")
ASSUMPTIONS = ["baseline: the same call as the first action of a new process"]


def canon(findings):
    return sorted([[str(x) for x in f] for f in findings])


def make_files(job):
    d = job["dir"]
    for n, j in enumerate(job["files"]):
        cases.make_file(j, os.path.join(d, f"f{n}.h5"))
    open(os.path.join(d, "junk.h5"), "w").write("this is not HDF5")
    os.makedirs(os.path.join(d, "elsewhere"), exist_ok=True)
    # same file name, other content
    shutil.copyfile(os.path.join(d, "f1.h5"), os.path.join(d, "elsewhere", "f0.h5"))
    return {}


def report_text(v):
    """the printed report without its first lines (names of file and file set)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v.print_report()
    return out.getvalue().split("\n", 2)[-1]


TREES = [[m, a] for m in (3, 5) for a in (True, False)]


def tree_text(path, m, attributes):
    from punx import h5tree

    t = h5tree.Hdf5TreeView(path)
    t.array_items_shown = m
    lines = t.report(attributes)
    return "\n".join([lines[0].replace(path, ""), *lines[1:]])


def digest(text):
    return hashlib.md5(text.encode("utf8", "backslashreplace")).hexdigest()


def baseline(job):
    v = worker.op_validate(dict(file=job["file"], ref=job["ref"], fresh=True, want="findings score"))
    if "exc" in v:
        return v
    from punx import validate

    v2 = validate.Data_File_Validator(job["ref"])
    v2.validate(job["file"])
    out = dict(findings=canon(v["findings"]), score=v["score"], report=digest(report_text(v2)))
    v2.close()
    if job["trees"]:
        out["trees"] = [digest(tree_text(job["file"], *t)) for t in TREES]
    return out


# bundled file sets with other naming patterns
VARIANTS = {
    "v3.3~a": ("nxdl.xsd", 'value="[A-Za-z_][\\w_]*"', 'value="[A-Za-z_0-9][\\w_. -]*"'),
    "v2018.5~b": ("nxdl.xsd", 'value="NX.+"', 'value="NX[A-Za-z_]+"'),
}


def copy_set(name, path, ref):
    filesets.copy_set(name.split("~")[0], path, ref, "1999-01-02 03:04:05", change=VARIANTS.get(name))


def history(job):
    """operations in one process; returns what each validation observed"""
    from punx import cache_manager, nxdl_manager, schema_manager, utils, validate

    rng = random.Random(job["seed"])
    d = job["dir"]
    d = os.path.join(job["config"], "files")
    shutil.copytree(job["dir"], d)
    os.makedirs(os.path.join(d, "~"))
    os.environ["VERIF_RUN"] = "1"
    # by content: the name of each may change; names which are patterns or references to other names
    odd = ["f$VERIF_RUN.h5", "f[2].h5", "f%31.h5", "~/f1.h5", "f?.h5", "f1.h5 ", "F1.h5", "f{1,2}.h5", "f1.h5.h5", "f\\x31.h5", "f1%d.h5", "f\u00b9.h5", "f1"]
    files = [os.path.join(d, f"f{n}.h5") for n in range(job["nfiles"])]
    for n in rng.sample(range(3, len(files)), min(3, len(files) - 3)):
        new = os.path.join(d, odd.pop(rng.randrange(len(odd))))
        os.rename(files[n], new)
        files[n] = new
    sink = io.StringIO()
    log, obs, trees = [], [], []
    current = [None]  # "updated" is a copy of this file set, for now

    def update():
        src = rng.choice([x for x in [*common.SETS, *VARIANTS] if x != current[0]])
        path = os.path.join(job["config"], "punx", "updated")
        if current[0] is None or rng.random() < 0.7:
            shutil.rmtree(path, ignore_errors=True)
            copy_set(src, path, "updated")
        else:
            # other way: as install does
            copy_set(src, path + ".new", "updated")
            os.rename(path, path + ".old")
            os.rename(path + ".new", path)
            shutil.rmtree(path + ".old")
        current[0] = src

    update()
    pool = {}  # ref: list of validators
    open_ = []  # (validator, file, ref)

    def collect(v, n, ref, how):
        ref = current[0] if ref == "updated" else ref
        obs.append([n, ref, how, log[-2] if len(log) > 1 else "", canon(worker.findings_of(v)), list(v.finding_score()),
                    digest(report_text(v)) if rng.random() < 0.5 else None])

    def validate_(v, n, ref, how):
        fn = files[n]
        if rng.random() < 0.3:
            os.chdir(d)
            fn = os.path.relpath(fn)
        v.validate(fn)
        collect(v, n, ref, how)

    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        for _ in range(job["length"]):
            k = rng.choices(
                ["new", "reuse", "open", "recheck", "missing", "junk", "tree", "report", "manager", "xml", "chdir", "schema", "summary", "close", "same", "update", "swap"],
                [6, 10, 4, 4, 1, 1, 2, 3, 1, 1, 1, 1, 2, 2, 3, 3, 3])[0]
            n = rng.randrange(len(files))
            ref = rng.choice([*common.SETS, "updated", "updated"])
            log.append(k)
            if k == "new":
                v = validate.Data_File_Validator(ref)
                pool.setdefault(ref, []).append(v)
                validate_(v, n, ref, k)
                if rng.random() < 0.7:
                    v.close()
            elif k == "reuse" and pool.get(ref):
                v = rng.choice(pool[ref])
                open_ = [o for o in open_ if o[0] is not v]
                validate_(v, n, ref, k)
                if rng.random() < 0.5:
                    v.close()
            elif k == "open":
                v = validate.Data_File_Validator(ref)
                validate_(v, n, ref, k)
                open_.append((v, n, ref))
            elif k == "recheck" and open_:
                v, m, r = rng.choice(open_)
                collect(v, m, r, k)
            elif k in ("missing", "junk"):
                v = rng.choice(pool.get(ref) or [validate.Data_File_Validator(ref)])
                open_ = [o for o in open_ if o[0] is not v]
                try:
                    v.validate(os.path.join(d, "nothere.h5" if k == "missing" else "junk.h5"))
                    obs.append([None, ref, k, "", "no exception", None, None])
                except Exception:
                    pass
                validate_(v, n, ref, "after failure")
            elif k == "tree":
                t = rng.randrange(len(TREES))
                trees.append([n, t, log[-2] if len(log) > 1 else "", digest(tree_text(files[n], *TREES[t]))])
                utils.isNeXusFile(files[n])
            elif k == "report" and open_:
                v, m, r = rng.choice(open_)
                v.print_report(rng.choice([None, ["ERROR"], ["OK", "NOTE"]]))
                collect(v, m, r, k)
            elif k == "summary" and open_:
                v, m, r = rng.choice(open_)
                s = v.finding_summary()
                s.clear()
                v.finding_summary(list(worker_statuses())[:2])
                collect(v, m, r, k)
            elif k == "manager":
                m = nxdl_manager.NXDL_Manager(ref)
                str(m)
                sorted(m.classes)[:3]
            elif k == "schema":
                path = cache_manager.CacheManager().all_file_sets[ref].path
                schema_manager.SchemaManager(path)
                nxdl_manager.get_NXDL_file_list(path)
            elif k == "xml":
                with contextlib.suppress(Exception):
                    path = cache_manager.CacheManager().all_file_sets[ref].path
                    validate.validate_xml(os.path.join(path, "base_classes", "NXdata.nxdl.xml"), ref)
            elif k == "update":
                # validators of the former content are not used any more
                for v in pool.pop("updated", []):
                    v.close()
                open_ = [o for o in open_ if o[2] != "updated"]
                update()
            elif k == "swap":
                m = rng.randrange(len(files))
                a, b = files[n], files[m]
                if m == n:
                    continue
                if rng.random() < 0.5:
                    os.rename(a, a + ".x")
                    os.rename(b, a)
                    os.rename(a + ".x", b)
                elif not open_ and not any(v.h5 for vs in pool.values() for v in vs):
                    # same files (inodes), other content
                    x, y = open(a, "rb").read(), open(b, "rb").read()
                    open(a, "wb").write(y)
                    open(b, "wb").write(x)
                else:
                    continue
                files[n], files[m] = b, a
            elif k == "chdir":
                os.chdir(rng.choice([d, os.path.join(d, "elsewhere")]))
            elif k == "close" and open_:
                v, m, r = open_.pop(rng.randrange(len(open_)))
                v.close()
                collect(v, m, r, k)
            elif k == "same" and pool.get(ref):
                v = rng.choice(pool[ref])
                for _i in range(3):
                    v.validate(files[n])
                    collect(v, n, ref, k)
                v.close()
            else:
                log.pop()
        for v, m, r in open_:
            collect(v, m, r, "end")
            v.close()
    return dict(obs=obs, log=log, trees=trees)


def worker_statuses():
    from punx import finding

    return finding.VALID_STATUS_LIST


def user_cache(ctx, name):
    """a configuration directory with more file sets"""
    cfg = ctx.mkdir(name)
    for i, (src, dst) in enumerate([("v3.3", "another"), ("a4fd52d", "main")]):
        p = os.path.join(cfg, "punx", dst)
        shutil.copytree(os.path.join(common.CACHE, src), p)
        info = os.path.join(p, "__github_info__.json")
        import json

        obj = json.load(open(info))
        obj["ref"] = dst
        obj["last_modified"] = "%d-01-02 03:04:05" % (2030 - 20 * i)
        json.dump(obj, open(info, "w"))
    return cfg


def run(ctx):
    rng = ctx.rng("history")
    d = ctx.mkdir("files")
    nfiles = ctx.pick(7, 24)
    files = cases.random_jobs(ctx, nfiles - 3, common.SETS, depth=3, width=4, pointer=0.8, appdef=0.6)
    # the same content again, and data files of the repository
    files.append(dict(make="check:c06.plot_file", ref="v3.3", spec=dict(entries=[dict(cls="NXentry", default="data0", data=[
        dict(cls="NXdata", deep=False, signal="y", style=0, markers={})])], root_default="entry0", seed=1)))
    files += [dict(make="corpus:" + os.path.join(common.REPO, "punx", "data", n)) for n in ("writer_1_3.hdf5", "verysimple.nx5")]
    for f in files:
        f.setdefault("ref", "v3.3")
    nfiles = len(files)
    made = ctx.run_jobs([dict(op="call", call="checks.c08:make_files", dir=d, files=files)])[0]
    if made != {}:
        raise RuntimeError(f"harness: {made}")
    base_jobs = [dict(op="call", call="checks.c08:baseline", file=os.path.join(d, f"f{n}.h5"), ref=r, n=n, trees=r == "v3.3")
                 for n in range(nfiles) for r in [*common.SETS, *VARIANTS]]
    for nm in VARIANTS:
        copy_set(nm, os.path.join(ctx.config, "punx", nm), nm)
    base = {}
    for j, r in zip(base_jobs, ctx.run_jobs(base_jobs, batch=1)):
        if "findings" not in r:
            ctx.violation("no verdict in a new process", dict(job=j, result=r), files=[j["file"]])
            return
        base[j["n"], j["ref"]] = r
    variants = [
        ("plain", None, {}),
        ("hash seed 1, C locale", None, dict(PYTHONHASHSEED="1", LANG="C", LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")),
        ("hash seed random, user cache", True, dict(PYTHONHASHSEED="random")),
        ("hash seed 77, Turkish time zone", None, dict(PYTHONHASHSEED="77", TZ="Asia/Istanbul", LANG="tr_TR.UTF-8")),
    ]
    per = ctx.pick(3, 60)
    todo = []
    for name, config, env in variants:
        for i in range(per):
            own = user_cache(ctx, f"cfg{len(todo)}") if config else ctx.mkdir(f"cfg{len(todo)}")
            todo.append((name, own, env, dict(op="call", call="checks.c08:history", dir=d, nfiles=nfiles, seed=rng.getrandbits(40), config=own,
                                              length=ctx.pick(30, 100))))
    done = ctx.parallel(lambda t: ctx.run_jobs([t[3]], workers=1, config=t[1], env=t[2])[0], todo)
    for t, r in zip(todo, done):
        shutil.rmtree(t[1], ignore_errors=True)
        for name, j, r in [(t[0], t[3], r)]:
            if "obs" not in r:
                if "exc" in r and not r["exc"]["where"]:
                    raise RuntimeError(f"harness: {r}")
                ctx.violation("a history ended without verdict", dict(environment=name, job=j, result=r),
                              files=[os.path.join(d, f"f{n}.h5") for n in range(nfiles)])
                continue
            ctx.count("operations", len(r["log"]))
            for a, b in zip(r["log"], r["log"][1:]):
                ctx.count("operation " + b)
            for n, t, prev, got in r["trees"]:
                ctx.evaluated([prev, "tree", n, t])
                if got != base[n, "v3.3"]["trees"][t]:
                    ctx.violation("tree depends on history or environment",
                                  dict(environment=name, history_seed=j["seed"], file=files[n], previous=prev, log=r["log"], tree=TREES[t]),
                                  files=[os.path.join(d, f"f{n}.h5")])
            for n, ref, how, prev, found, score, text in r["obs"]:
                if n is None:
                    ctx.violation("no exception for " + how, dict(environment=name, job=j))
                    continue
                want = base[n, ref]
                ctx.evaluated([prev, how, n, ref])
                ctx.count("texts of reports", text is not None)
                if text not in (None, want["report"]) and found == want["findings"]:
                    ctx.violation("printed report depends on history or environment",
                                  dict(environment=name, history_seed=j["seed"], file=files[n], ref=ref, previous=prev, log=r["log"]),
                                  files=[os.path.join(d, f"f{n}.h5")])
                if found != want["findings"] or score != want["score"]:
                    a = [f for f in want["findings"] if f not in found]
                    b = [f for f in found if f not in want["findings"]]
                    ctx.violation(f"findings depend on history: operation {how!r}",
                                  dict(environment=name, history_seed=j["seed"], file=files[n], ref=ref, previous=prev,
                                       log=r["log"], missing=a[:5], additional=b[:5], score=[want["score"], score]),
                                  files=[os.path.join(d, f"f{n}.h5")])
            ctx.sample(dict(environment=name, log=r["log"][:20], validations=len(r["obs"])), 4)
    ctx.extra["environments"] = [v[0] for v in variants]
