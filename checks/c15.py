"""C15: install makes exactly the file set of the archive, and does not replace without update"""
import contextlib
import datetime
import hashlib
import io
import json
import os
import pathlib
import random

from vlib import common, filesets, worker

RULE = ("sequences of installs (library and command line, with and without update, several names in one command) of random archives as made by GitHub, "
        "of different versions of one name; after each step the whole user cache is compared with the archives: exactly the .xsd/.xml/.xsl files of the top "
        "and category directories, info file (ref, sha, zip_url, date of the newest file), other file sets, nothing else; distinct by (sequence, content)")
ASSUMPTIONS = ["archives as made by GitHub: one top directory which is the first member, commit hash as comment", "requests.get replaced: no network here"]
URL = "https://github.com/nexusformat/definitions/archive/%s.zip"


def expected(members, comment, name):
    files, newest = filesets.installed_content(members)
    dt = datetime.datetime(*newest)
    return dict(files=files, info=dict(ref=name, sha=comment, zip_url=URL % name, last_modified=dt.isoformat(sep=" ")))


def compare(cache, model):
    """differences between the user cache and what should be there"""
    problems = []
    names = sorted(n for n in os.listdir(cache)) if os.path.isdir(cache) else []
    if sorted(names) != sorted(model):
        problems.append(["content of the user cache", dict(expected=sorted(model), observed=names)])
    for nm in set(model) & set(names):
        snap = filesets.snapshot(os.path.join(cache, nm))
        infofile = os.path.join(cache, nm, filesets.INFO)
        if snap.pop(filesets.INFO, None) is None:
            problems.append(["no info file", nm])
        else:
            info = json.load(open(infofile))
            got = {k: info.get(k) for k in model[nm]["info"]}
            if got != model[nm]["info"]:
                problems.append(["info file", dict(name=nm, expected=model[nm]["info"], observed=got)])
        if snap != model[nm]["files"]:
            a, b = model[nm]["files"], snap
            problems.append(["files of a file set", dict(name=nm, missing=sorted(set(a) - set(b))[:8], unexpected=sorted(set(b) - set(a))[:8],
                                                         different=sorted(k for k in a if k in b and a[k] != b[k])[:8])])
    return problems


def sequence(job):
    """installs in one process"""
    exec(filesets.fake(job["zips"], job["log"]), {})
    from punx import cache_manager

    rng = random.Random(job["seed"])
    zips, cfg = job["zips"], job["config"]
    cache = os.path.join(cfg, "punx")
    model, problems, log = {}, [], []
    sink = io.StringIO()
    names = ["main", "v3.2", "Schema-3.4", "abc1234", "v2020.10-rc1"]
    cm = cache_manager.CacheManager()
    for step in range(job["steps"]):
        nm = rng.choice(names)
        full = rng.choice(common.SETS) if rng.random() < 0.05 else None
        data, members, comment = filesets.archive(rng, "definitions-" + nm.lstrip("v"), full=full)
        replace = rng.random() < 0.5
        with open(os.path.join(zips, nm + ".zip"), "wb") as f:
            f.write(data)
        exp = expected(members, comment, nm)
        before = model.get(nm)
        log.append([nm, "update" if replace else "install", "exists" if before else "new"])
        try:
            with contextlib.redirect_stdout(sink):
                if rng.random() < 0.15:
                    os.chdir(rng.choice([zips, cfg]))
                cache_manager.download_file_set(nm, pathlib.Path(cm.user.path), replace=replace)
        except BaseException as exc:
            few = len(exp["files"]) < 2
            if not few:
                problems.append([f"install raised {type(exc).__name__}", worker.exc_info(exc)])
            log[-1].append("refused")
        else:
            if before is None or replace:
                model[nm] = exp
        problems += [p + [list(log)] for p in compare(cache, model)]
        sets = cm.all_file_sets
        user = {k: dict(ref=v.ref, sha=v.sha, zip_url=v.zip_url, last_modified=v.last_modified) for k, v in sets.items() if v.cache == "user"}
        if user != {k: m["info"] for k, m in model.items()}:
            problems.append(["installed file sets are not known", dict(expected=sorted(model), observed=user)])
        if problems:
            break
    return dict(problems=problems, log=log, files=sum(len(m["files"]) for m in model.values()))


def run(ctx):
    rng = ctx.rng("install")
    cache_before = filesets.snapshot(common.CACHE)
    jobs = []
    for i in range(ctx.pick(28, 800)):
        cfg = ctx.mkdir(f"cfg{i}")
        zips = ctx.mkdir(f"zips{i}")
        jobs.append(dict(op="call", call="checks.c15:sequence", seed=rng.getrandbits(40), config=cfg, zips=zips,
                         log=os.path.join(ctx.scratch, f"log{i}"), steps=ctx.pick(10, 14)))
    results = ctx.parallel(lambda j: ctx.run_jobs([j], workers=1, config=j["config"])[0], jobs)
    for j, r in zip(jobs, results):
        if "problems" not in r:
            if "exc" in r and not r["exc"]["where"]:
                raise RuntimeError(f"harness: {r}")
            ctx.violation("install ended the process", dict(seed=j["seed"], result=r))
            continue
        for p in r["problems"]:
            ctx.violation(p[0], dict(seed=j["seed"], log=r["log"], detail=p[1:]))
        for nm, k, ex, *rest in r["log"]:
            ctx.count(f"{k}, {ex}" + (" (refused: no content)" if rest else ""))
        ctx.count("files compared", r["files"])
        ctx.evaluated(r["log"], len(r["log"]))
        ctx.sample(dict(seed=j["seed"], log=r["log"]), 3)

    # command line
    def cli(i):
        r = random.Random(f"{ctx.seed} cli {i}")
        cfg, zips = ctx.mkdir(f"ccfg{i}"), ctx.mkdir(f"czips{i}")
        cache = os.path.join(cfg, "punx")
        model, problems, log = {}, [], []
        urls = os.path.join(zips, "log")
        for step in range(4):
            made = {}
            for nm in ("main", "v3.2", "abc1234"):
                while True:
                    data, members, comment = filesets.archive(r, "definitions-" + nm)
                    made[nm] = expected(members, comment, nm)
                    if len(made[nm]["files"]) > 1:
                        break
                open(os.path.join(zips, nm + ".zip"), "wb").write(data)
            names = [[], ["v3.2"], ["abc1234", "main"], ["main"], ["v3.2", "abc1234", "v3.2"]][r.randrange(5)]
            update = r.random() < 0.5
            args = ["install", *names] + ([r.choice(["-u", "--update"])] if update else [])
            if r.random() < 0.3:
                args[0] = r.choice(["in", "inst"])
            log.append(args)
            rc, out, err = ctx.punx(args, config=cfg, prelude=filesets.fake(zips, urls))
            for nm in names or ["main"]:
                if nm not in model or update:
                    model[nm] = made[nm]
            problems += compare(cache, model)
            if rc != 0 or "Traceback" in err:
                problems.append(["exit code of install", [rc, err[-600:]]])
            for nm in model:
                if f"\n{nm} " not in out:
                    problems.append(["table of install does not list the file set", [nm, out[-1500:]]])
            if rc == 0 and not filesets.default_is_newest(out):
                problems.append(["default file set after install is not the newest of the table", out[-1500:]])
            if problems:
                break
        asked = open(urls).read().split() if os.path.exists(urls) else []
        if any(u not in [URL % n for n in ("main", "v3.2", "abc1234")] for u in asked):
            problems.append(["unexpected download", asked])
        return problems, log

    for problems, log in ctx.parallel(cli, range(ctx.pick(8, 60))):
        for p in problems:
            ctx.violation("punx install: " + p[0], dict(log=log, detail=p[1]))
        ctx.count("punx install", len(log))
        ctx.evaluated(log, len(log))
    if filesets.snapshot(common.CACHE) != cache_before:
        ctx.violation("install changed the source cache")
