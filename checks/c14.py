"""C14: file sets are found, listed, and selected by name; the newest is the default"""
import json
import os
import random
import shutil

from checks.c07 import parse_table
from vlib import common, filesets

RULE = ("random user caches: 0-7 file sets of random dates, names (also of the file sets of punx), directories and files which are not file sets, symbolic links to file sets, dates some seconds apart, "
        "broken info files; the dictionary, the default, the table, selection by name, later additions, and the NXDL content which is used are compared "
        "with the directories; distinct by (names, dates, kinds of broken entries)")
ASSUMPTIONS = ["the default is judged only if one file set alone has the latest date", "the order of file sets of the same date in the table is not judged"]


def source_sets():
    out = {}
    for nm in common.SETS:
        out[nm] = json.load(open(os.path.join(common.CACHE, nm, filesets.INFO)))
    return out


def make_cache(rng, cfg):
    """returns the valid file sets of this user cache"""
    base = os.path.join(cfg, "punx")
    os.makedirs(base)
    good, broken = {}, []
    pool = ["main", "v3.2", "v2022.07", "Schema-3.4", "a4fd52d", "v2018.5", "_x", "zz", "abc1234", "é", "with space", "v10.0", ".hidden", "v3.3.1", "0", "cache", "cache-fix", "cached"]
    rng.shuffle(pool)
    used = set()
    near = rng.random() < 0.5  # dates which differ a little only
    same = rng.random() < 0.25  # several of the same date
    last = None
    for nm in pool[:rng.randrange(8)]:
        while True:
            d = filesets.date(rng)
            if near:
                d = rng.choice(["2030-11-09 ", "2030-11-10 ", "2018-05-15 "]) + rng.choice(["09:59:59", "10:00:00", "10:00:01", "23:00:00", "00:00:00", "00:01:00", "08:30:%02d" % rng.randrange(60)])
            if same and last:
                d = last
                break
            if d not in used:
                break
        used.add(d)
        last = d
        info = dict(ref=nm, sha=filesets.sha(rng)[: rng.choice([40, 40, 7, 3])], zip_url="https://x", last_modified=d)
        if rng.random() < 0.3:
            info["# description"] = "x"
        if rng.random() < 0.2:
            del info["zip_url"]
        if rng.random() < 0.2:  # renamed, or a copy
            info["ref"] = rng.choice(["main", "v3.3", "was-" + nm])
        filesets.write_info(os.path.join(base, nm), info)
        if rng.random() < 0.2:  # linked
            os.rename(os.path.join(base, nm), os.path.join(cfg, "elsewhere-" + nm))
            os.symlink(os.path.join(cfg, "elsewhere-" + nm), os.path.join(base, nm))
        good[nm] = info
    for i in range(rng.randrange(5)):
        nm = "b%d" % i
        k = rng.randrange(9)
        p = os.path.join(base, nm)
        broken.append(k)
        ok = dict(ref=nm, sha="1234567890", zip_url="x", last_modified="2039-01-01 00:00:0%d" % i)
        if k == 0:
            os.mkdir(p)
        elif k == 1:
            open(p, "w").write("a file")
        elif k == 2:
            filesets.write_info(p, "{not json")
        elif k == 3:
            filesets.write_info(p, "[1, 2]")
        elif k == 4:
            del ok[rng.choice(["ref", "sha", "last_modified"])]
            filesets.write_info(p, ok)
        elif k == 5:
            ok[rng.choice(["ref", "sha", "last_modified"])] = rng.choice([None, 5, [1]])
            filesets.write_info(p, ok)
        elif k == 6:
            filesets.write_info(p, "")
        elif k == 7:
            filesets.write_info(os.path.join(p, "sub"), ok)
        elif k == 8:
            os.makedirs(os.path.join(p, filesets.INFO))
    if rng.random() < 0.3:
        filesets.write_info(base, dict(ref="top", sha="1", zip_url="x", last_modified="2040-01-01 00:00:00"))
        broken.append("info file in the cache directory")
    return good, broken


def observe(job):
    """all that can be seen of the caches"""
    from punx import cache_manager, nxdl_manager

    out = {}
    cm = cache_manager.CacheManager()

    def desc(fs):
        return dict(ref=fs.ref, sha=fs.sha, last_modified=fs.last_modified, path=str(fs.path), cache=fs.cache)

    out["default"] = desc(cm.default_file_set)
    out["sets"] = {k: desc(v) for k, v in cm.all_file_sets.items()}
    out["table"] = str(cm.table_of_caches())
    out["table2"] = str(cache_manager.table_of_caches())
    out["selected"] = {}
    for nm in job["names"]:
        fs = cm.select_NXDL_file_set(nm)
        out["selected"][nm] = [desc(fs), desc(cm.default_file_set)]
    out["unknown"] = {}
    for nm in job["unknown"]:
        try:
            m = nxdl_manager.NXDL_Manager(nm)
            out["unknown"][nm] = "accepted: " + str(m.nxdl_file_set.ref)
        except KeyError:
            out["unknown"][nm] = "KeyError"
        out["unknown select " + nm] = desc(cm.select_NXDL_file_set(nm))
    # added while this process is running
    filesets.write_info(os.path.join(job["config"], "punx", "added"), dict(ref="added", sha="abcdef0123", zip_url="x", last_modified="2041-01-01 00:00:00"))
    out["added"] = sorted(cm.all_file_sets)
    out["default added"] = desc(cm.select_NXDL_file_set())
    shutil.rmtree(os.path.join(job["config"], "punx", "added"))
    out["removed"] = sorted(cm.all_file_sets)
    return out


def content(job):
    """the NXDL content in use"""
    from punx import nxdl_manager, validate

    out = {}
    for nm in job["names"]:
        m = nxdl_manager.NXDL_Manager(nm)
        out[str(nm)] = dict(fields=sorted(m.classes["NXbeam"].fields), title=m.nxdl_file_set.ref, n=len(m.classes), path=str(m.nxdl_file_set.path))
        v = validate.Data_File_Validator(nm)
        out[str(nm)]["validator"] = str(v.manager.nxdl_file_set.path)
        v.close()
    return out


def judge(obs, good, cfg, broken):
    problems = []
    want = {}
    for k, i in source_sets().items():
        want[k] = dict(ref=i["ref"], sha=i["sha"], last_modified=i["last_modified"], path=os.path.join(common.CACHE, k), cache="source")
    for k, i in good.items():
        want[k] = dict(ref=k, sha=i["sha"], last_modified=i["last_modified"], path=os.path.join(cfg, "punx", k), cache="user")
    if obs["sets"] != want:
        extra = sorted(set(obs["sets"]) - set(want))
        missing = sorted(set(want) - set(obs["sets"]))
        problems.append(["file sets are not those in the caches", dict(missing=missing, unexpected=extra, wrong=[
            [k, obs["sets"][k], want[k]] for k in want if k in obs["sets"] and obs["sets"][k] != want[k]])])
    latest = max(want.values(), key=lambda w: w["last_modified"])
    alone = [w["last_modified"] for w in want.values()].count(latest["last_modified"]) == 1
    if alone and obs["default"] != latest:
        problems.append(["default file set is not the newest", dict(expected=latest, observed=obs["default"])])
    for t in ("table", "table2"):
        try:
            labels, rows, n = parse_table(obs[t].split("\n"))
        except (AssertionError, IndexError):
            problems.append(["table of file sets", obs[t]])
            continue
        exp = [[k, w["cache"], w["last_modified"], w["sha"][:7], w["path"]] for k, w in sorted(want.items(), key=lambda kv: kv[1]["last_modified"])]
        dates = {}
        for n, row in enumerate(exp):
            dates.setdefault(row[2], []).append(n)
        if len(dates) < len(exp):  # in any order
            exp = [sorted(exp[i] for i in ns) for ns in dates.values()]
            rows = [sorted(rows[ns[0]:ns[-1] + 1]) for ns in dates.values()] + [rows[len(want):]]
            exp.append([])
        if rows != exp:
            problems.append(["table of file sets", dict(expected=exp, observed=rows)])
    for nm, (a, b) in obs["selected"].items():
        if a != want[nm] or b != want[nm]:
            problems.append(["selection of a file set by name", dict(name=nm, expected=want[nm], observed=[a, b])])
    for nm, r in obs["unknown"].items():
        if r != "KeyError":
            problems.append(["unknown file set name", [nm, r]])
    for k in obs:
        if k.startswith("unknown select ") and alone and obs[k] != latest:
            problems.append(["selection of an unknown name is not the newest", [k, obs[k]]])
    if obs["added"] != sorted([*want, "added"]) or obs["default added"]["ref"] != "added":
        problems.append(["file set added while running", [obs["added"], obs["default added"]]])
    if obs["removed"] != sorted(want):
        problems.append(["file set removed while running", obs["removed"]])
    return problems


def run(ctx):
    rng = ctx.rng("caches")
    n = ctx.pick(36, 700)
    items = []
    for i in range(n):
        cfg = ctx.mkdir(f"{i}/x/punx/cache-x" if i % 7 == 5 else f"{i}/punx/cache" if i % 7 == 3 else f"cfg{i}")
        good, broken = make_cache(rng, cfg)
        names = list(good) + list(common.SETS)
        rng.shuffle(names)
        items.append(dict(cfg=cfg, good=good, broken=broken, job=dict(
            op="call", call="checks.c14:observe", config=cfg, names=names, unknown=[rng.choice(["nothere", "v3", "V3.3", "v3.3 ", "", "b0", "master"])]),
            cli=i % 3 == 0))

    def one(it):
        r = ctx.run_jobs([it["job"]], workers=1, config=it["cfg"])[0]
        cli = None
        if it["cli"]:
            cli = ctx.punx(["configuration"], config=it["cfg"])
        return r, cli

    for it, (r, cli) in zip(items, ctx.parallel(one, items)):
        what = dict(user_cache=it["good"], broken=it["broken"], names=it["job"]["names"], unknown=it["job"]["unknown"])
        if "sets" not in r:
            if "exc" in r and not r["exc"]["where"]:
                raise RuntimeError(f"harness: {r}")
            ctx.violation("file sets cannot be listed or selected", dict(case=what, result=r))
            continue
        for p in judge(r, it["good"], it["cfg"], it["broken"]):
            ctx.violation(p[0], dict(case=what, detail=p[1]))
        if cli is not None:
            rc, out, err = cli
            ctx.count("punx configuration")
            if rc != 0 or r["table"].strip() not in out or f"default NXDL file set:  {r['default']['ref']}" not in out:
                ctx.violation("punx configuration does not show the file sets", dict(case=what, exit_code=rc, stdout=out, stderr=err[-500:]))
        ctx.count("file sets of users", len(it["good"]))
        for b in it["broken"]:
            ctx.count(f"directory which is no file set: kind {b}")
        ctx.evaluated([sorted((k, v["last_modified"]) for k, v in it["good"].items()), it["broken"]], 8)
        ctx.sample(dict(case=what, default=r["default"]["ref"]), 3)

    # the content of the named file set is what is used
    def use(i):
        cfg = ctx.mkdir(f"use{i}")
        base = os.path.join(cfg, "punx")
        src = common.SETS[i % 3]
        override = i % 2 == 0
        nm = common.SETS[(i + 1) % 3] if override else "main"
        newest = i % 4 < 2
        filesets.copy_set(src, os.path.join(base, nm), "earlier" if i % 3 == 1 else nm, "2039-05-06 07:08:09" if newest else "1999-05-06 07:08:09",
                          change=("base_classes/NXbeam.nxdl.xml", '<field name="distance"', '<field name="marker_%d" />\n<field name="distance"' % i))
        names = [nm, None] + [s for s in common.SETS if s != nm][:1]
        r = ctx.run_jobs([dict(op="call", call="checks.c14:content", names=names)], workers=1, config=cfg)[0]
        fn = os.path.join(common.REPO, "punx", "data", "verysimple.nx5")
        cli = ctx.punx(["validate", fn, "--report", "ERROR"], config=cfg)
        cli2 = ctx.punx(["validate", fn, "--report", "ERROR", "-f", nm], config=cfg)
        cli3 = ctx.punx(["validate", fn, "--report", "ERROR", "-f", "nothere"], config=cfg)
        return cfg, nm, newest, i, r, cli, cli2, cli3

    for cfg, nm, newest, i, r, cli, cli2, cli3 in ctx.parallel(use, range(ctx.pick(6, 24))):
        path = os.path.join(cfg, "punx", nm)
        info = source_sets()
        info[nm] = dict(last_modified="2039-05-06 07:08:09" if newest else "1999-05-06 07:08:09")
        default = max(info, key=lambda k: info[k]["last_modified"])
        if nm not in r:
            ctx.violation("file set of the user cannot be used", r)
            continue
        for k, c in r.items():
            p = path if k == nm or (k == "None" and default == nm) else os.path.join(common.CACHE, default if k == "None" else k)
            marked = f"marker_{i}" in c["fields"]
            ctx.evaluated(["content", k == "None", nm, newest])
            if c["path"] != p or c["validator"] != p or marked != (p == path):
                ctx.violation("definitions are not from the selected file set", dict(selected=k, expected=p, observed=c))
        for (rc, out, err), ref in ((cli, default), (cli2, nm)):
            if rc != 0 or f"NeXus definitions version: {ref}" not in out or f"NeXus definitions: {ref}, " not in out:
                ctx.violation("punx validate does not use the selected file set", dict(expected=ref, exit_code=rc, stdout=out[-1500:], stderr=err[-500:]))
        if cli3[0] == 0 or "data file" in cli3[1]:
            ctx.violation("punx validate with unknown file set", cli3)
        ctx.count("file sets of users used in validation")
