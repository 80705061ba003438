"""C17: install changes nothing outside of its file set in the user cache"""
import contextlib
import io
import json
import os
import pathlib
import random
import sys
import tempfile
import zipfile

from vlib import common, filesets

RULE = ("file set names (relative, absolute, with '..', empty, odd text) x existing victims x archives with hostile member names (.., absolute, back slash, links, "
        "names of other file sets, odd first member); all destructive calls of the process are watched by an audit hook which refuses those outside of the scratch area, "
        "all files around the cache are compared before and after; unprivileged user where possible; distinct by (name, archive, update)")
ASSUMPTIONS = ["file set names with directories below the cache (as 'a/b') are allowed"]

CHANGES = {"os.mkdir": 1, "os.rename": 2, "os.remove": 1, "os.rmdir": 1, "os.chmod": 1, "os.chown": 1, "os.link": 2, "os.symlink": 2, "os.truncate": 1,
           "os.utime": 1, "shutil.rmtree": 1, "shutil.move": 2, "shutil.copytree": 2, "shutil.copyfile": 2, "os.putenv": 0}


def guard(area, allowed, log):
    """audit hook: record and refuse changes outside of ``area``"""
    def resolve(p, fd):
        if isinstance(p, int):
            return os.readlink(f"/proc/self/fd/{p}")
        p = os.fsdecode(p)
        if isinstance(fd, int) and fd >= 0 and not os.path.isabs(p):
            p = os.path.join(os.readlink(f"/proc/self/fd/{fd}"), p)
        d, b = os.path.split(os.path.abspath(p))
        return os.path.join(os.path.realpath(d), b)

    state = dict(busy=False)

    def hook(event, args):
        if state["busy"]:
            return
        paths = []
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
            paths = [(path, -1)]
        elif event in CHANGES:
            n = CHANGES[event]
            fds = [a for a in args[n:] if isinstance(a, int)]
            if event in ("shutil.copyfile", "shutil.copytree", "os.link", "os.symlink"):
                paths = [(args[1], -1)]
            elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.utime"):
                fd = args[-1] if isinstance(args[-1], int) else -1
                paths = [(args[0], fd)]
            elif event == "os.rename":
                paths = [(args[0], args[2] if len(args) > 2 else -1), (args[1], args[3] if len(args) > 3 else -1)]
            else:
                paths = [(a, -1) for a in args[:n]]
        elif event in ("os.system", "subprocess.Popen", "os.exec", "os.kill"):
            log.append(["process", event, repr(args)[:200]])
            raise PermissionError("refused by the monitor")
        for p, fd in paths:
            state["busy"] = True
            try:
                full = resolve(p, fd)
            finally:
                state["busy"] = False
            if full == "/dev/null":
                continue
            if not any((full + "/").startswith(a + "/") for a in allowed):
                log.append([event, full])
                if not (full + "/").startswith(area + "/"):
                    raise PermissionError("refused by the monitor: " + full)
    return hook


def child(job, area, name, replace, w):
    cache = os.path.join(area, "config", "punx")
    log, result = [], "installed"
    sys.dont_write_bytecode = True
    from punx import cache_manager

    if os.getuid() == 0:
        with contextlib.suppress(OSError):
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    os.environ.update(VERIF_SET="other", VERIF_UP="../victim", HOME=os.path.join(area, "victim"))
    os.chdir(os.path.join(area, "work"))
    tempfile.tempdir = os.path.join(area, "tmp")
    sys.addaudithook(guard(area, [cache, tempfile.tempdir], log))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cache_manager.download_file_set(name, pathlib.Path(cache), replace=replace)
    except BaseException as exc:
        result = type(exc).__name__
    os.write(w, json.dumps([result, log[:20], os.getuid()]).encode())
    os._exit(0)


def tree(area):
    return filesets.snapshot(area)


def zip_bytes(members):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for m in members:
            fn, content = m[0], m[1]
            zi = zipfile.ZipInfo("x")
            zi.filename = fn
            if len(m) > 2:
                zi.external_attr = m[2]
            z.writestr(zi, content)
        z.comment = b"0123456789abcdef"
    return buf.getvalue()


GOOD = [["top/", ""], ["top/nxdl.xsd", "x"], ["top/base_classes/NXa.nxdl.xml", "a"], ["top/applications/NXb.nxdl.xml", "b"]]
LINK = 0o120777 << 16
ARCHIVES = {
    "good": GOOD,
    "parents": GOOD + [["../../evil.xml", "E"], ["../../base_classes/evil.xml", "E"], ["top/../../../applications/evil.xml", "E"], ["../top/evil.xsd", "E"]],
    "absolute": GOOD + [["/AREA/victim/evil.xml", "E"], ["/AREA/base_classes/evil.xml", "E"], ["//top/evil.xml", "E"]],
    "backslash": GOOD + [["..\\..\\base_classes\\evil.xml", "E"], ["top\\base_classes\\x.xml", "E"], ["C:\\base_classes\\x.xml", "E"]],
    "links": [["top/", ""], ["top/nxdl.xsd", "x"], ["top/nxdlTypes.xsd", "x"], ["top/base_classes", "/AREA/victim", LINK], ["top/base_classes/evil.xml", "E"],
              ["top/applications.xml", "../../../victim", LINK]],
    "other sets": GOOD + [["v3.2/base_classes/evil.xml", "E"], ["v3.2/nxdl.xsd", "E"], ["v3.2/top/evil.xml", "E"], ["../v3.2/base_classes/NXv.nxdl.xml", "E"]],
    "first is other set": [["v3.2/", ""], ["v3.2/nxdl.xsd", "E"], ["v3.2/base_classes/NXv.nxdl.xml", "E"]],
    "first is parent": [["../", ""], ["../nxdl.xsd", "E"], ["../base_classes/NXa.nxdl.xml", "E"], ["../applications/NXb.nxdl.xml", "E"]],
    "first is double parent": [["../../", ""], ["../../punx/nxdl.xsd", "E"], ["../../base_classes/NXa.nxdl.xml", "E"], ["../../x/applications/NXb.nxdl.xml", "E"]],
    "first is root": [["/", ""], ["/nxdl.xsd", "E"], ["/base_classes/NXa.nxdl.xml", "E"], ["/AREA/victim/base_classes/NXb.nxdl.xml", "E"]],
    "first is dot": [["./", ""], ["./nxdl.xsd", "E"], ["./base_classes/NXa.nxdl.xml", "E"]],
    "first is a file": [["nxdl.xsd", "E"], ["base_classes/NXa.nxdl.xml", "E"], ["applications/NXb.nxdl.xml", "E"]],
    "first is absolute": [["/AREA/victim/", ""], ["/AREA/victim/nxdl.xsd", "E"], ["/AREA/victim/base_classes/NXa.nxdl.xml", "E"]],
    "info file": GOOD + [["top/__github_info__.json", '{"ref": "evil"}'], ["__github_info__.json", "{}"]],
    "nested": GOOD + [["top/x/base_classes/../../../../evil.xml", "E"], ["top/a/b/c/applications/deep.xml", "E"]],
}


NEAR = ["main", "\u00e9", "other/set"]  # file sets of names which are near to others of names()


def names(area):
    return ["main", "../victim", "../../victim", "../victim/inner", "..", ".", "", "./", "../", "../punx", "main/..", "main/../..", "main/../../victim", "a/../../../victim",
            area + "/victim", "/" + area + "/victim", area + "/config", area + "/config/punx", area + "/config/punx2", "../punx2", area, "../../work", "~", "$HOME", "$VERIF_SET", "${VERIF_SET}", "%VERIF_SET%", "$VERIF_SET/x", "$VERIF_UP", "~/x",
            "v3.2/../../victim", "-u", "ma\nin", "%2e%2e/victim", "..\\victim", "x" * 300, "é", "..." , " ../victim", "link", "link/inner", "link/../victim", "//", "../../../../../../../../verif-escape",
            "main ", " main", "main\t", "main\n", "Main", "MAIN", "main.", "main.zip", "main-1", "v3.2 ", "V3.2", "v3-2", "v3_2", "v3.2.", "v3", "e\u0301", "'main'", "main;", "main@v3.2", "%6dain",
            "other/set ", "other\\set", "other", "other/SET", "other/set/"]



def case(job):
    exec(filesets.fake(job["zips"]), {})
    import PyQt5.QtCore  # noqa: F401
    from punx import cache_manager  # noqa: F401
    import requests

    rng = random.Random(job["seed"])
    out = []
    for i, (ni, arch, replace) in enumerate(job["todo"]):
        area = os.path.realpath(os.path.join(job["dir"], f"{job['n']}_{i}"))
        cache = os.path.join(area, "config", "punx")
        for d in ("tmp", "victim/inner", "victim/base_classes", "work/victim", "config/punx2", "config/punx/v3.2/base_classes", "v3.2"):
            os.makedirs(os.path.join(area, d))
            open(os.path.join(area, d, "precious.xml"), "w").write("precious " + d)
            filesets.write_info(os.path.join(area, d), dict(ref="v3.2", sha="1", zip_url="x", last_modified="2000-01-01 00:00:00"))
        open(os.path.join(cache, "v3.2", "nxdl.xsd"), "w").write("old")
        filesets.write_info(os.path.join(cache, "v3.2"), dict(ref="v3.2", sha="1", zip_url="x", last_modified="2000-01-01 00:00:00"))
        for near in NEAR:
            if near != "main" and near != "other/set" or rng.random() < 0.5 or names(area)[ni] != near:
                os.makedirs(os.path.join(cache, near, "base_classes"))
                open(os.path.join(cache, near, "base_classes", "NXv.nxdl.xml"), "w").write("old " + near)
                filesets.write_info(os.path.join(cache, near), dict(ref=near, sha="1", zip_url="x", last_modified="2000-01-01 00:00:00"))
        for base, dirs, files in os.walk(area):
            os.chmod(base, 0o777)
            for fn in files:
                os.chmod(os.path.join(base, fn), 0o666)
        name = names(area)[ni]
        members = [[m[0].replace("AREA", area.lstrip("/"))] + [x.replace("AREA", area.lstrip("/")) if isinstance(x, str) else x for x in m[1:]] for m in ARCHIVES[arch]]
        data = zip_bytes(members)

        class Response:
            content = data

        requests.get = lambda *a, **k: Response
        before = tree(area)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                child(job, area, name, replace, w)
            finally:
                os._exit(99)
        os.close(w)
        got = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            got += b
        os.close(r)
        os.waitpid(pid, 0)
        if not got:
            raise RuntimeError("no answer of the child")
        result, log, uid = json.loads(got)
        after = tree(area)
        changed = []
        own = os.path.normpath(os.path.join("config/punx", name)) if "\0" not in name else None
        for k in sorted(set(before) | set(after)):
            if before.get(k) != after.get(k):
                inside = k.startswith("config/punx/")
                if (k + "/").startswith("tmp/"):
                    continue
                if not inside:
                    changed.append(["outside of the cache", k])
                elif k.startswith("config/punx/v3.2/") and not (own or "").startswith("config/punx/v3.2"):
                    changed.append(["other file set", k])
                elif not (k.startswith(str(own) + "/") or k.split("/")[2].startswith(".")):
                    changed.append(["not in the directory of the file set", k])
                elif k.split("/")[2].startswith(".") and k.split("/")[2] != name.split("/")[0]:
                    changed.append(["left in the cache", k])
        if os.path.lexists("/verif-escape.xml") or os.path.lexists("/verif-escape"):
            changed.append(["escaped", "/verif-escape"])
        out.append(dict(name=name.replace(area, "<area>"), archive=arch, update=replace, result=result, log=log, changed=changed[:10], uid=uid))
    return dict(out=out)


def run(ctx):
    rng = ctx.rng("contain")
    os.chmod(ctx.scratch, 0o755)
    d = ctx.mkdir("areas")
    nn = len(names("/x"))
    todo = [(ni, "good", u) for ni in range(nn) for u in (False, True)]
    todo += [(0, a, u) for a in ARCHIVES for u in (False, True)]
    rest = [(ni, a, u) for ni in range(nn) for a in ARCHIVES for u in (False, True)]
    todo += rest if ctx.thorough else rng.sample(rest, 150)
    jobs = []
    size = 20
    for i in range(0, len(todo), size):
        jobs.append(dict(op="call", call="checks.c17:case", dir=d, n=i, seed=rng.getrandbits(30), todo=todo[i:i + size], zips=ctx.mkdir("zips")))
    uids = set()
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "out" not in r:
            raise RuntimeError(f"harness: {r}")
        for o in r["out"]:
            what = {k: o[k] for k in ("name", "archive", "update", "result")}
            if o["log"]:
                ctx.violation("install reaches outside of the user cache", dict(what, calls=o["log"]))
            for c in o["changed"]:
                ctx.violation("install changed: " + c[0], dict(what, changed=o["changed"]))
            ctx.count("result " + o["result"])
            ctx.evaluated([o["name"], o["archive"], o["update"]])
            ctx.sample(what, 5)
            uids.add(o["uid"])
    ctx.extra["user ids of the installs"] = sorted(uids)
