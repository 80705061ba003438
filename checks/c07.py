"""C07: the report, the summary and the score say what the findings say"""
import collections
import contextlib
import itertools
import os
import random
import re

import h5py

from vlib import cases, common, worker

RULE = ("random NeXus files x file set x selections of statuses (all 255 non-empty subsets over the run); the printed tables are parsed back and "
        "compared with the recorded findings; non-trivial: at least 3 statuses among the findings, distinct by (findings by status, selection)")
ASSUMPTIONS = ["names or texts with line breaks make table rows of several lines: those files are judged by counts only"]

VALUES = dict(OK=100, NOTE=75, WARN=25, ERROR=-10000000, TODO=0, UNUSED=0, COMMENT=0, OPTIONAL=99)
ORDER = list(VALUES)


def parse_table(lines):
    """rows of the ReST simple table which starts at lines[0]; (rows, number of lines used)"""
    assert re.fullmatch(r"=+( =+)*", lines[0]), lines[0]
    spans, pos = [], 0
    for w in lines[0].split(" "):
        spans.append((pos, pos + len(w)))
        pos += len(w) + 1
    spans[-1] = (spans[-1][0], None)
    borders = [i for i, ln in enumerate(lines) if ln == lines[0]]
    rows = [[ln[a:b].strip() for a, b in spans] for ln in lines[borders[0] + 1:borders[1]]]
    body = [[ln[a:b].strip() for a, b in spans] for ln in lines[borders[1] + 1:borders[2]]]
    return rows, body, borders[2] + 1


def parse_report(text):
    """the printed report of ``print_report()``"""
    lines = text.split("\n")
    out = dict(header=lines[0], defs=lines[1])
    i = lines.index("findings")
    if lines[i + 1] and lines[i + 1][0] == "=":
        out["labels"], out["rows"], n = parse_table(lines[i + 1:])
    else:
        out["labels"], out["rows"], n = None, [], 0
    j = len(lines) - 1 - lines[::-1].index("summary statistics")
    out["slabels"], out["summary"], n = parse_table(lines[j + 1:])
    out["last"] = [ln for ln in lines[j + 1 + n:] if ln.strip()]
    return out


def norm(s):
    return str(s).strip()


def lengthen(path, rng):
    """names and texts so long that findings have long addresses and comments"""
    with h5py.File(path, "a") as f:
        groups = [f]
        f.visititems(lambda n, o: groups.append(o) if isinstance(o, h5py.Group) else None)
        for _ in range(rng.choice([1, 2, 3])):
            g = rng.choice(groups)
            n = rng.choice([60, 100, 130, 257, 300, 500, 1000, 2000])
            k = rng.randrange(5)
            if k == 0:
                q = g.create_group(f"long_{n}{rng.randrange(10 ** 6)}")
                q.attrs["NX_class"] = "NXdata"
                q.attrs["signal"] = "s" * n
            elif k == 1:
                g.attrs[rng.choice(["target", "default", "signal"])] = "/" * rng.randrange(2) + "t" * n
            elif k == 2:
                g.attrs["a" * n] = 1
            elif k == 3:
                q = g.create_group("g" * n + str(rng.randrange(10 ** 6)))
                q.attrs["NX_class"] = "NX" + "c" * rng.choice([1, n])
                q.create_dataset("data set", data=[1])
            else:
                q = g.create_group(f"axes_{n}{rng.randrange(10 ** 6)}")
                q.attrs["NX_class"] = "NXdata"
                q["y"] = [1, 2]
                q.attrs["signal"] = "y"
                q.attrs["axes"] = ":".join("x%d" % i for i in range(n // 4))


def case(job):
    path = os.path.join(job["dir"], f"case{job['n']}.h5")
    keep = True
    try:
        cases.make_file(job, path)
        if job["long"]:
            lengthen(path, random.Random(job["n"]))
        v = worker.op_validate(dict(file=path, ref=job["ref"], want="findings score subsets report items",
                                    subsets=job["subsets"], statuses=[None] + job["subsets"]))
        if "exc" in v:
            return dict(exc=v["exc"], file=path)
        problems = judge(v, job, path)
        keep = bool(problems)
        c = collections.Counter(f[2] for f in v["findings"])
        return dict(problems=problems[:15], file=path, count=dict(c), n=len(v["findings"]),
                    rows=sum(c[k] for s in job["subsets"] for k in s))
    finally:
        if not keep:
            for fn in (path, os.path.splitext(path)[0] + "_ext.h5"):
                with contextlib.suppress(OSError):
                    os.remove(fn)


def judge(v, job, path):
    problems = []
    found = v["findings"]
    count = collections.Counter(f[2] for f in found)
    for f in found:
        if f[2] not in VALUES:
            problems.append(["unknown status", f])
    # score
    valued = [VALUES[f[2]] for f in found if VALUES.get(f[2])]
    total, n = sum(valued), len(valued)
    avg = total / n if n else 0
    if v["score"][:2] != [total, n] or abs(v["score"][2] - avg) > 1e-9 * max(1, abs(avg)):
        problems.append(["score differs", dict(expected=[total, n, avg], observed=v["score"])])
    if v["summary"] != [[k, count.get(k, 0)] for k in ORDER]:
        problems.append(["summary differs", dict(expected=dict(count), observed=v["summary"])])
    for names, got in zip(job["subsets"], v["subsets"]):
        if got != [[k, count.get(k, 0)] for k in names]:
            problems.append(["summary of selected statuses differs", dict(selected=names, expected=dict(count), observed=got)])
    for addr, key, status, faddr, member in v["items"]:
        if not member:
            problems.append(["finding of an item is not among the findings of the file", [addr, key, status, faddr, member]])
    # reports
    multiline = any(c in str(x) for f in found for x in f for c in "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029")
    for names, text in zip([ORDER] + job["subsets"], v["reports"]):
        try:
            rep = parse_report(text)
        except (ValueError, AssertionError, IndexError) as exc:
            if multiline:
                continue
            problems.append(["report is not as documented", dict(error=repr(exc), text=text[:600])])
            continue
        if rep["header"] != "data file: " + path:
            problems.append(["report does not name the file", rep["header"]])
        if not rep["defs"].startswith(f"NeXus definitions: {job['ref']}"):
            problems.append(["report does not name the file set", rep["defs"]])
        want = sorted([norm(f[0]), f[2], norm(f[1]), norm(f[3])] for f in found if f[2] in names)
        got = sorted(rep["rows"])
        if not multiline and want != got:
            a, b = collections.Counter(map(tuple, want)), collections.Counter(map(tuple, got))
            problems.append(["report rows are not the findings of the selected statuses",
                             dict(selected=names, missing=list((a - b).items())[:6], unexpected=list((b - a).items())[:6])])
        if rep["rows"] and rep["labels"] != [["address", "status", "test", "comments"]]:
            problems.append(["column labels", rep["labels"]])
        srows = {r[0]: r for r in rep["summary"]}
        for k in ORDER:
            r = srows.get(k)
            if r is None or r[1] != str(count.get(k, 0)) or r[3] != str(VALUES[k]):
                problems.append(["summary statistics of the report differ", dict(status=k, expected=[count.get(k, 0), VALUES[k]], observed=r)])
        if srows.get("TOTAL", [None, None])[1] != str(len(found)):
            problems.append(["TOTAL of the report differs", dict(expected=len(found), observed=srows.get("TOTAL"))])
        if rep["last"] != ["<finding>=%f of %d items reviewed" % (avg, n)]:
            problems.append(["average finding of the report differs", dict(expected=[avg, n], observed=rep["last"])])
    return problems


def finding_api(job):
    """only the documented statuses are accepted"""
    from punx import finding

    bad = []
    for st in list(finding.VALID_STATUS_LIST):
        f = finding.Finding("/a", "test", st, "comment")
        if (f.h5_address, f.test_name, f.status, f.comment) != ("/a", "test", st, "comment"):
            bad.append(["finding changes what was recorded", str(st)])
    for st in ["OK", "ERROR", None, 1, True, "no such", object(), finding.VALID_STATUS_DICT]:
        try:
            finding.Finding("/a", "test", st, "comment")
            bad.append(["unknown status accepted", repr(st)])
        except ValueError:
            pass
    got = {k: s.value for k, s in finding.VALID_STATUS_DICT.items()}
    if got != VALUES:
        bad.append(["status values", got])
    if (finding.TF_RESULT[True], finding.TF_RESULT[False]) != (finding.OK, finding.ERROR):
        bad.append(["TF_RESULT"])
    keys = {}
    for a, t in itertools.product(["/a", "/a/b", "/", "/é", "/a\n"], ["b", "t", "é", "\nb"]):
        k = finding.Finding(a, t, finding.OK, "c").make_md5()
        if k != finding.Finding(a, t, finding.ERROR, "other").make_md5():
            bad.append(["hash of a finding is not a function of address and test", [a, t]])
        keys.setdefault(k, set()).add((a, t))
    # (address, test) joined with a line break: those with line breaks can collide
    for k, v in keys.items():
        if len({x for x in v if "\n" not in x[0] + x[1]}) > 1:
            bad.append(["different findings have the same hash", sorted(v)])
    return dict(bad=bad, n=len(keys))


def run(ctx):
    rng = ctx.rng("subsets")
    every = [list(c) for k in range(1, 9) for c in itertools.combinations(ORDER, k)]
    rng.shuffle(every)
    jobs = cases.random_jobs(ctx, ctx.pick(150, 4500), common.SETS, depth=4, width=4, cycle=0.05, broken=0.1)
    jobs += cases.random_jobs(ctx, ctx.pick(60, 1500), common.SETS, "valid", depth=3, invalid=0.0, odd=0.0, broken=0.05)
    jobs += cases.corpus_jobs(common.SETS if ctx.thorough else common.SETS[1:2])
    d = ctx.mkdir("cases")
    k = 0
    for i, j in enumerate(jobs):
        subs = []
        for _ in range(4):
            s = list(every[k % len(every)])
            k += 1
            rng.shuffle(s)
            subs.append(s)
        j.update(op="call", call="checks.c07:case", dir=d, n=i, subsets=subs, long=i % 4 == 1 and j["make"].startswith("random"))
    res = ctx.run_jobs(jobs + [dict(op="call", call="checks.c07:finding_api")])
    api = res.pop()
    for b in api.get("bad", [["no answer", api]]):
        ctx.violation("Finding: " + b[0], b)
    ctx.evaluated(None, api.get("n", 0))
    for j, r in zip(jobs, res):
        what = {x: j[x] for x in ("make", "seed", "ref", "weights", "subsets") if x in j}
        if "problems" not in r:
            if "exc" in r and not r["exc"]["where"]:
                raise RuntimeError(f"harness: {r}")
            ctx.violation("no report", dict(job=what, result=r), files=[r.get("file", "")])
            continue
        for p in r["problems"]:
            ctx.violation(p[0], dict(job=what, detail=p[1]), files=[r["file"]])
        for st, n in r["count"].items():
            ctx.count("findings " + st, n)
        ctx.count("reports parsed", 5)
        ctx.evaluated(dict(c=r["count"], s=j["subsets"]) if len(r["count"]) > 2 else None, 5)
        ctx.sample(dict(case=what, findings=r["count"]), 3)
    ctx.extra["status selections used"] = min(k, len(every))
