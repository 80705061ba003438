"""C16: a failed or interrupted install never damages the cache"""
import contextlib
import errno
import io
import json
import os
import pathlib
import random
import resource
import shutil
import signal
import sys
import time
import zipfile

from checks import c15
from vlib import common, filesets

RULE = ("each install (new, update) is run again with one fault at every file system operation (error ENOSPC, KeyboardInterrupt, process killed) and at "
        "every executed line of the installer (KeyboardInterrupt, killed), with failing downloads and damaged archives, with a limit of file size, and "
        "concurrently with other installs and readers; after each: every listed file set is one complete archive, others are untouched, "
        "after an error the previous one is kept, and install works again; distinct by (scenario, fault, place)")
ASSUMPTIONS = ["one fault at a time", "a killed process can leave directories which are not listed as file sets",
               "an archive that is cut in its comment (after all content) is taken as complete by the zipfile module: not used here",
               "process killed while it replaces a file set: the name can be unknown until installed again"]

FS_EVENTS = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.utime", "os.chmod", "shutil.rmtree", "shutil.move",
             "shutil.copyfile", "shutil.copytree", "shutil.copymode", "os.link", "os.symlink", "os.listdir", "os.scandir")


def hook_for(cache, k, action, counter):
    """audit hook: at event number k on the cache do ``action``"""
    def hook(event, args):
        if event not in FS_EVENTS or not counter["on"]:
            return
        if event == "open":
            mode, flags = args[1], args[2]
            if not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
        counter["n"] += 1
        if counter["n"] == k:
            counter["what"] = event
            counter["on"] = False
            act(action)
            counter["on"] = action.startswith("twice")
    return hook


def act(action):
    if action == "kill":
        os._exit(77)
    if action == "interrupt":
        raise KeyboardInterrupt
    raise OSError(errno.ENOSPC, "No space left on device (injected)")


def tracer_for(k, action, counter):
    def local(frame, event, arg):
        if event == "line":
            counter["n"] += 1
            if counter["n"] == k:
                counter["what"] = f"{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}"
                sys.settrace(None)
                act(action)
        return local

    def tracer(frame, event, arg):
        if "/punx/" in frame.f_code.co_filename:
            return local
        return None
    return tracer


def child(job, cache, nm, replace, where, k, action, report):
    """install with a fault; never returns"""
    code = 0
    counter = dict(n=0, on=True, what=None)
    try:
        from punx import cache_manager

        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if where == "fs":
                    sys.addaudithook(hook_for(cache, k, action, counter))
                elif where == "line":
                    sys.settrace(tracer_for(k, action, counter))
                elif where == "fsize":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                cache_manager.download_file_set(nm, pathlib.Path(cache), replace=replace)
            finally:
                sys.settrace(None)
                counter["on"] = False
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if where != "fsize" else None
    except KeyboardInterrupt:
        code = 3
    except BaseException:
        code = 2
    with contextlib.suppress(BaseException):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    os.write(report, json.dumps([code, counter["n"], counter["what"]]).encode())
    os._exit(code)


def attempt(job, cache, nm, replace, where, k, action):
    """run child; (exit code, number of events, place)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(job, cache, nm, replace, where, k, action, w)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if data:
        return json.loads(data)
    return [code, 0, None]


def listed(cache):
    """names which punx lists, in this cache"""
    from punx import cache_manager

    cm = cache_manager.CacheManager()
    assert os.path.realpath(str(cm.user.path)) == os.path.realpath(cache), (cm.user.path, cache)
    return {k: v for k, v in cm.user.all_file_sets.items()}


def fill(path, exp, members):
    """write a file set as installed"""
    top = members[0][0].split("/")[0]
    for fn, content, d in members:
        rel = "/".join(fn.split("/")[1:])
        if rel in exp["files"]:
            p = os.path.join(path, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", encoding="utf8").write(content)
    for c in filesets.CATEGORIES:
        os.makedirs(os.path.join(path, c), exist_ok=True)
    filesets.write_info(path, exp["info"])


def complete(path, exp):
    """problems of this directory as file set ``exp``"""
    snap = filesets.snapshot(path)
    snap.pop(filesets.INFO, None)
    try:
        info = json.load(open(os.path.join(path, filesets.INFO)))
    except Exception as exc:
        return f"info file: {exc}"
    got = {k: info.get(k) for k in exp["info"]}
    if got != exp["info"]:
        return f"info {got} is not {exp['info']}"
    if snap != exp["files"]:
        return f"missing {sorted(set(exp['files']) - set(snap))[:5]} additional {sorted(set(snap) - set(exp['files']))[:5]}"
    return None


def make(rng, nm):
    while True:
        data, members, comment = filesets.archive(rng, "definitions-" + nm)
        exp = c15.expected(members, comment, nm)
        if len(exp["files"]) > 3:
            return data, members, exp


def faults(job):
    """enumerate faults in this process (children by fork)"""
    exec(filesets.fake(job["zips"]), {})
    from punx import cache_manager, utils  # noqa: F401  (before fork)
    import tempfile, zipfile, PyQt5.QtCore  # noqa: F401,E401

    rng = random.Random(job["seed"])
    cache = os.path.join(job["config"], "punx")
    problems, places = [], []
    nm = "main"
    old_data, old_members, old = make(rng, nm)
    new_data, new_members, new = make(rng, nm)
    _, oth_members, oth = make(rng, "v3.2")
    oth["info"]["ref"] = "v3.2"
    zipfn = os.path.join(job["zips"], nm + ".zip")
    runs = 0

    def prepare(update):
        shutil.rmtree(cache, ignore_errors=True)
        os.makedirs(cache)
        fill(os.path.join(cache, "v3.2"), oth, oth_members)
        if update:
            fill(os.path.join(cache, nm), old, old_members)

    def verdict(update, code, label):
        bad = []
        sets = listed(cache)
        for k in sets:
            if k not in (nm, "v3.2"):
                bad.append(["additional file set is listed", k])
        if "v3.2" not in sets or complete(os.path.join(cache, "v3.2"), oth):
            bad.append(["other file set was damaged", label])
        if nm in sets:
            a = complete(os.path.join(cache, nm), new)
            b = complete(os.path.join(cache, nm), old) if update else "was not installed before"
            if a and b:
                bad.append(["file set is partial", [a, b]])
            if code == 0 and a:
                bad.append(["successful install is not complete", a])
            if code in (2, 3) and not b and sorted(n for n in os.listdir(cache) if not n.startswith(".")) != sorted(["v3.2", nm]):
                bad.append(["failed install left something visible", sorted(os.listdir(cache))])
        else:
            if code == 0:
                bad.append(["successful install is not listed", label])
            if update and code in (2, 3):
                bad.append(["failed update lost the previous file set", sorted(os.listdir(cache))])
            if os.path.lexists(os.path.join(cache, nm)) and not update:
                bad.append(["failed install left a directory which is no file set", filesets.snapshot(os.path.join(cache, nm))])
        # again, without fault
        if rng.random() < job["again"] or bad:
            open(zipfn, "wb").write(new_data)
            c2, _, _ = attempt(job, cache, nm, True, "none", 0, "none")
            if c2 != 0 or nm not in listed(cache) or complete(os.path.join(cache, nm), new):
                bad.append(["install does not work after a failed one", [c2, label]])
        for b in bad:
            problems.append(b + [label])

    for update in (False, True):
        for where, action in job["modes"]:
            open(zipfn, "wb").write(new_data)
            prepare(update)
            code, n, _ = attempt(job, cache, nm, update, where, 0, action)
            if code != 0:
                problems.append(["install without fault failed", [code], [where, action]])
                return dict(problems=problems, runs=runs, places=[])
            verdict(update, code, ["no fault", update])
            ks = list(range(1, n + 1))
            if where == "line" and len(ks) > job["maxlines"]:
                # all lines at the end (where directories are moved), a sample of the loop
                ks = sorted(set(ks[-job["maxlines"] // 2:] + rng.sample(ks, job["maxlines"] // 2)))
            for k in ks:
                prepare(update)
                code, _, place = attempt(job, cache, nm, update, where, k, action)
                runs += 1
                places.append([where, action, update, place if code != 77 else f"event {k}"])
                verdict(update, code, dict(update=update, fault=action, at=where, number=k, place=place, exit=code))
                if len(problems) > 20:
                    return dict(problems=problems, runs=runs, places=places)
        # archives which cannot be used
        damaged = []
        for cut in (0, 10, len(new_data) // 3, len(new_data) // 2, len(new_data) - 63, len(new_data) - 80):
            damaged.append((f"cut at {cut} of {len(new_data)}", new_data[:cut]))
        b = bytearray(new_data)
        for i in range(rng.randrange(len(b) // 4), len(b) // 2, 7):
            b[i] ^= 0x5A
        damaged.append(("damaged content", bytes(b)))
        with zipfile.ZipFile(io.BytesIO(new_data)) as z:
            infos = [i for i in z.infolist() if i.compress_size > 4]
        inst = [i for i in infos if "/".join(i.filename.split("/")[1:]) in new["files"]]
        for i in rng.sample(inst, min(len(inst), job["members"])) + rng.sample(infos, 1):
            # one file of the archive
            b = bytearray(new_data)
            at = i.header_offset + 30 + len(i.filename.encode()) + rng.randrange(i.compress_size)
            b[at] ^= rng.choice([1, 0x20, 0xFF])
            damaged.append((f"damaged file {i.filename}", bytes(b)))
            if rng.random() < 0.3:
                # no such compression method, encrypted, ...
                b = bytearray(new_data)
                at = b.rindex(i.filename.encode()) - 46
                assert b[at:at + 4] == b"PK\x01\x02"
                b[at + rng.choice([8, 10, 16, 24])] ^= 1
                damaged.append((f"damaged entry {i.filename}", bytes(b)))
        for label, data in [*damaged, ("404", None), ("html", b"<html>rate limit</html>")] + no_content(rng):
            prepare(update)
            if data is None:
                if os.path.exists(zipfn):
                    os.remove(zipfn)
            else:
                open(zipfn, "wb").write(data)
            code, _, _ = attempt(job, cache, nm, update, "none", 0, "none")
            runs += 1
            places.append(["archive", label.split(" ")[0], update, " ".join(label.split(" at")[0].split(" ")[:2])])
            if code == 0 and not label.startswith("cut") and not label.startswith("damaged"):
                # (a damaged archive might still be a complete one)
                if not (nm in listed(cache) and update and not complete(os.path.join(cache, nm), old)):
                    problems.append(["install reports success without file set", label])
            verdict(update, 2 if code == 0 else code, dict(update=update, archive=label, exit=code))
        # file size limit: some files can be written, the largest not
        open(zipfn, "wb").write(new_data)
        for limit in (1, 50, 200, 400, 600):
            prepare(update)
            code, _, _ = attempt(job, cache, nm, update, "fsize", limit, "limit")
            runs += 1
            places.append(["fsize", limit, update, code])
            verdict(update, code, dict(update=update, file_size_limit=limit, exit=code))
    return dict(problems=problems, runs=runs, places=places)


def no_content(rng):
    out = []
    for label, files in (("nocontent", ["top/README.md"]), ("onefile", ["top/nxdl.xsd"]), ("emptyzip", [])):
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for fn in files:
                z.writestr(fn, "x")
        out.append((label, buf.getvalue()))
    return out


# ---- network errors

NET = r"""
import requests
_calls = [0]
def _get(url, *a, **k):
    _calls[0] += 1
    raise requests.exceptions.%s("no route")
requests.get = _get
"""


# ---- concurrency

def installer(job):
    exec(filesets.fake(job["zips"]), {})
    from punx import cache_manager

    rng = random.Random(job["seed"])
    # delays between the steps of the installer
    def tracer(frame, event, arg):
        if "/punx/" in frame.f_code.co_filename:
            def local(fr, ev, arg):
                if ev == "line" and rng.random() < 0.08:
                    time.sleep(rng.random() * 0.004)
                return local
            return local
        return None

    done = errors = 0
    sink = io.StringIO()
    for _ in range(job["rounds"]):
        # (all versions are there, the archive is chosen at random)
        src = rng.choice(job["versions"])
        tmp = os.path.join(job["zips"], f".{job['seed']}.tmp")
        shutil.copyfile(src, tmp)
        os.replace(tmp, os.path.join(job["zips"], "main.zip"))
        sys.settrace(tracer)
        try:
            with contextlib.redirect_stdout(sink):
                cache_manager.download_file_set("main", pathlib.Path(job["config"]) / "punx", replace=job["replace"])
            done += 1
        except Exception:
            errors += 1
        finally:
            sys.settrace(None)
    return dict(done=done, errors=errors)


def reader(job):
    from punx import cache_manager

    cm = cache_manager.CacheManager()
    cache = os.path.join(job["config"], "punx")
    path = os.path.join(cache, "main")
    seen, partial = {}, []
    bad = []
    end = time.time() + job["seconds"]
    while time.time() < end and not os.path.exists(os.path.join(job["config"], "stop")):
        try:
            a = os.stat(path).st_ino
        except OSError:
            seen["absent"] = seen.get("absent", 0) + 1
            continue
        try:
            sets = cm.user.all_file_sets
            which = [i for i, e in enumerate(job["expected"]) if complete(path, e) is None]
            why = complete(path, job["expected"][0])
            b = os.stat(path).st_ino
        except OSError:
            continue
        for k in sets:
            if k not in ("main", "v3.2"):
                bad.append(k)
        if a == b and "main" in sets:
            if which:
                seen[str(which[0])] = seen.get(str(which[0]), 0) + 1
            elif os.stat(path).st_ino == a:
                partial.append(why)
    return dict(seen=seen, partial=partial[:5], npartial=len(partial), additional=sorted(set(bad))[:5])


def run(ctx):
    rng = ctx.rng("faults")
    modes = [["fs", "error"], ["fs", "kill"], ["fs", "interrupt"], ["line", "interrupt"], ["line", "kill"]]
    jobs = []
    for i in range(ctx.pick(1, 12)):
        for m in modes:
            cfg, zips = ctx.mkdir(f"cfg{len(jobs)}"), ctx.mkdir(f"zips{len(jobs)}")
            jobs.append(dict(op="call", call="checks.c16:faults", seed=rng.getrandbits(40) if m[0] == "line" else 1000 + i + ctx.seed * 7919,
                             config=cfg, zips=zips, modes=[m], again=ctx.pick(0.15, 0.5), maxlines=ctx.pick(120, 100000),
                             members=ctx.pick(4, 100)))
    results = ctx.parallel(lambda j: ctx.run_jobs([j], workers=1, config=j["config"])[0], jobs)
    for j, r in zip(jobs, results):
        if "problems" not in r:
            raise RuntimeError(f"harness: {r}")
        for p in r["problems"]:
            ctx.violation(p[0], dict(seed=j["seed"], detail=p[1:]))
        for pl in r["places"]:
            ctx.count(f"{pl[0]}: {pl[1]}, {'update' if pl[2] else 'new'}")
            ctx.evaluated(pl)
        ctx.sample(dict(modes=j["modes"], runs=r["runs"], places=r["places"][:6]), 5)

    # errors of the network, at the command line
    cfg = ctx.mkdir("netcfg")
    cache = os.path.join(cfg, "punx")
    _, members, exp = make(rng, "main")
    fill(os.path.join(cache, "main"), exp, members)

    def net(item):
        name, args = item
        return ctx.punx(args, config=cfg, prelude=NET % name)

    items = [(e, a) for e in ("ConnectionError", "Timeout", "SSLError", "TooManyRedirects", "ChunkedEncodingError")
             for a in (["install", "-u", "main"], ["install", "v3.2"])]
    for (name, args), (rc, out, err) in zip(items, ctx.parallel(net, items)):
        ctx.evaluated(["net", name, args])
        ctx.count("network errors")
        if rc == 0:
            ctx.violation("failed download gives exit code 0", dict(error=name, args=args, stdout=out[-500:]))
    if sorted(os.listdir(cache)) != ["main"] or complete(os.path.join(cache, "main"), exp):
        ctx.violation("failed download changed the cache", sorted(os.listdir(cache)))

    # concurrent installs and readers
    for n in range(ctx.pick(2, 16)):
        cfg, zips = ctx.mkdir(f"ccfg{n}"), ctx.mkdir(f"czips{n}")
        cache = os.path.join(cfg, "punx")
        versions, expected = [], []
        for i in range(3):
            data, members, exp = make(rng, "main")
            versions.append(os.path.join(zips, f"version{i}"))
            open(versions[-1], "wb").write(data)
            expected.append(exp)
        _, om, oth = make(rng, "v3.2")
        oth["info"]["ref"] = "v3.2"
        fill(os.path.join(cache, "v3.2"), oth, om)
        replace = n % 2 == 0
        inst = [dict(op="call", call="checks.c16:installer", seed=rng.getrandbits(30), config=cfg, zips=zips, versions=versions,
                     rounds=ctx.pick(12, 60) if replace else 1, replace=replace) for _ in range(3)]
        read = [dict(op="call", call="checks.c16:reader", config=cfg, expected=expected, seconds=ctx.pick(40, 200)) for _ in range(2)]

        def go(j):
            r = ctx.run_jobs([j], workers=1, config=cfg)[0]
            return r

        import concurrent.futures as cf

        with cf.ThreadPoolExecutor(5) as pool:
            fr = [pool.submit(go, j) for j in read]
            fi = [pool.submit(go, j) for j in inst]
            ri = [f.result() for f in fi]
            open(os.path.join(cfg, "stop"), "w").close()
            rr = [f.result() for f in fr]
        for r in ri + rr:
            if "exc" in r or "died" in r:
                raise RuntimeError(f"harness: {r}")
        for r in rr:
            ctx.count("concurrent: observations of a complete file set", sum(v for k, v in r["seen"].items() if k != "absent"))
            ctx.count("concurrent: observations of no file set", r["seen"].get("absent", 0))
            if r["npartial"]:
                ctx.violation("reader saw a partial file set", dict(replace=replace, detail=r))
            if r["additional"]:
                ctx.violation("reader saw an additional file set", dict(replace=replace, detail=r))
            ctx.evaluated(["concurrent", replace, sorted(r["seen"])], sum(r["seen"].values()))
        done = sum(r["done"] for r in ri)
        ctx.count("concurrent: installs done", done)
        ctx.count("concurrent: installs refused", sum(r["errors"] for r in ri))
        left = sorted(x for x in os.listdir(cache) if not x.startswith("."))
        if left != ["main", "v3.2"] or not any(complete(os.path.join(cache, "main"), e) is None for e in expected):
            ctx.violation("concurrent installs left a damaged cache", dict(replace=replace, cache=left, why=complete(os.path.join(cache, "main"), expected[0]) if "main" in left else None))
        if complete(os.path.join(cache, "v3.2"), oth):
            ctx.violation("concurrent installs damaged another file set")
        if done == 0:
            ctx.violation("no concurrent install succeeded", ri)
