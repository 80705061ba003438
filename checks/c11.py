"""C11: punx only reads the files it looks at, and closes them"""
import contextlib
import gc
import hashlib
import io
import os
import random
import shutil
import subprocess
import tempfile

import h5py

from vlib import cases, common, h5gen, hostile, nxdlref, worker

RULE = ("random and unusual HDF5 files with external files; sequences of validate / report / close / tree / isNeXusFile, with failures between; "
        "before and after each: content, time stamps and list of all files (incl. the source cache), and open file descriptors of the process; "
        "read-only files and directories as unprivileged user; distinct by (sequence of operations, constructs)")
ASSUMPTIONS = ["content of external files may stay open until the validator is used again or discarded"]


def snapshot(d, content=True):
    out = {}
    for base, dirs, files in os.walk(d):
        for fn in dirs:
            p = os.path.join(base, fn)
            out[p] = ["dir", os.stat(p).st_mode]
        for fn in files:
            p = os.path.join(base, fn)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[p] = [st.st_size, st.st_mtime_ns, st.st_mode, st.st_ino, hashlib.md5(f.read()).hexdigest() if content else None]
    return out


def diff(a, b):
    return [[k, a.get(k), b.get(k)] for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def open_files(d):
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            t = os.readlink(f"/proc/self/fd/{fd}")
            if t.startswith(d):
                out.add(os.path.basename(t))
    return out


def make(job, d):
    rng = random.Random(job["seed"])
    made = []
    for n in range(2):
        path = os.path.join(d, f"f{n}.h5")
        h5gen.random_file(rng, path, nxdlref.bundled(job["ref"]), depth=2, width=4, external=0.3, cycle=0.05)
        with h5py.File(path, "a") as f:
            made += hostile.inject(f, job["names"], rng)
    open(os.path.join(d, "junk.h5"), "w").write("no HDF5 file" * 100)
    open(os.path.join(d, "empty.h5"), "w")
    for fn in os.listdir(d):  # old files, so that any change is seen
        os.utime(os.path.join(d, fn), ns=(10 ** 18, 10 ** 18))
    return made


def case(job):
    from punx import h5tree, nxdltree, utils, validate

    rng = random.Random(job["seed"] + 1)
    d = job["dir"] = os.path.join(job["dir"], f"d{job['n']}")
    os.mkdir(d)
    made = make(job, d)
    # nothing may be written here
    for sub in ("tmp", "cwd"):
        os.mkdir(os.path.join(d, sub))
    nxdl = os.path.join(d, "NXmine.nxdl.xml")
    cat = rng.choice(["base_classes", "applications", "contributed_definitions"])
    src = os.path.join(common.CACHE, job["ref"], cat)
    shutil.copyfile(os.path.join(src, rng.choice(sorted(f for f in os.listdir(src) if f.endswith(".nxdl.xml")))), nxdl)
    os.utime(nxdl, ns=(10 ** 18, 10 ** 18))
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.join(d, "tmp")
    os.chdir(os.path.join(d, "cwd"))
    problems, ops = [], []
    names = sorted(os.listdir(d))
    files = [os.path.join(d, f"f{n}.h5") for n in range(2)]
    before = snapshot(d)
    v = validate.Data_File_Validator(job["ref"])
    sink = io.StringIO()
    user = None
    current = None
    with contextlib.redirect_stdout(sink):
        v.close()
        for _ in range(12):
            k = rng.choice(["validate"] * 5 + ["missing", "junk", "report", "close", "tree", "isnexus"] * 2 + ["user", "tree junk", "nxdl tree", "nxdl validate"])
            n = rng.randrange(2)
            ops.append(k)
            expected_open = set()
            try:
                if k == "validate":
                    v.validate(files[n])
                    current = n
                elif k in ("missing", "junk"):
                    try:
                        v.validate(os.path.join(d, "nothere.h5" if k == "missing" else rng.choice(["junk.h5", "empty.h5"])))
                        problems.append(["validated what is not a HDF5 file", k])
                    except Exception:
                        pass
                    if k == "junk":
                        current = None
                elif k == "report" and current is not None:
                    v.print_report()
                elif k == "close":
                    v.close()
                    current = None
                    if v.h5 is not None:
                        problems.append(["validator holds the file after close()", k])
                elif k == "tree":
                    t = h5tree.Hdf5TreeView(files[n])
                    t.report(rng.random() < 0.5)
                    del t
                elif k == "nxdl tree":
                    nxdltree.NxdlTreeView(nxdl).report(rng.random() < 0.5)
                elif k == "nxdl validate":
                    validate.validate_xml(nxdl, job["ref"])
                elif k == "isnexus":
                    utils.isNeXusFile(files[n])
                elif k == "tree junk":
                    for fn in ("junk.h5", "nothere.h5"):
                        with contextlib.suppress(OSError, Exception):
                            h5tree.Hdf5TreeView(os.path.join(d, fn)).report()
                elif k == "user":
                    # a file opened by the user of the library stays open
                    with h5py.File(files[n], "r") as user:
                        w = validate.Data_File_Validator(job["ref"])
                        w.validate(files[n])
                        utils.isNeXusFile(files[n])
                        h5tree.Hdf5TreeView(files[n]).report()
                        w.close()
                        del w
                        if not user.id.valid:
                            problems.append(["closed a file opened by someone else", k])
                        else:
                            list(user)
            except Exception as exc:
                problems.append([f"{k} raised {type(exc).__name__}", worker.exc_info(exc)])
                break
            gc.collect()
            opened = open_files(d)
            allowed = set(names) - {"f0.h5", "f1.h5", "junk.h5", "empty.h5", "NXmine.nxdl.xml"}
            if current is not None:
                allowed.add(f"f{current}.h5")
                # a file can have an external link to itself, only the other one must be closed
            if opened - allowed:
                problems.append([f"file left open after {k}", [sorted(opened), ops[:]]])
            if k == "validate" and f"f{n}.h5" not in opened:
                problems.append(["file is not open after validate()", [sorted(opened), ops[:]]])
        v.close()
        v.close()
        del v
        gc.collect()
        left = open_files(d)
        if left:
            problems.append(["file left open by a discarded validator", [sorted(left), ops]])
        changed = diff(before, snapshot(d))
        if changed:
            problems.append(["files were changed", changed])
        # the owner can write the file again
        for fn in files:
            try:
                with h5py.File(fn, "r+") as f:
                    f.attrs["x"] = 1
            except OSError as exc:
                problems.append(["file cannot be written after close()", str(exc)])
    os.chdir("/")
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.dirname(d)
    out = dict(problems=problems, ops=ops, made=made, dir=d, files=files)
    if not problems:
        for base, dirs, fns in os.walk(d):
            for fn in fns:
                os.remove(os.path.join(base, fn))
        for sub in ("tmp", "cwd"):
            os.rmdir(os.path.join(d, sub))
        os.rmdir(d)
    return out


UNPRIVILEGED = r"""
import os, sys
os.setgroups([]); os.setgid(65534); os.setuid(65534)
d, ref = sys.argv[1:3]
try:
    open(os.path.join(d, "probe"), "w"); print("WRITABLE"); sys.exit(0)
except OSError:
    pass
from punx import validate, h5tree, utils
import io, contextlib
for fn in sorted(os.listdir(d)):
    if not fn.startswith("f"):
        continue
    p = os.path.join(d, fn)
    with contextlib.redirect_stdout(io.StringIO()):
        v = validate.Data_File_Validator(ref)
        v.validate(p); n = len(v.validations); v.print_report(); v.close()
        lines = h5tree.Hdf5TreeView(p).report()
        utils.isNeXusFile(p)
    print("READ", fn, n > 0, len(lines) > 0)
"""


def run(ctx):
    rng = ctx.rng("readonly")
    d = ctx.mkdir("cases")
    names = list(hostile.ALL)
    cache_before = snapshot(common.CACHE)
    jobs = [dict(op="call", call="checks.c11:case", dir=d, n=i, seed=rng.getrandbits(40), ref=common.SETS[i % 3],
                 names=rng.sample(names, rng.choice([0, 1, 3]))) for i in range(ctx.pick(44, 2500))]
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        what = {k: j[k] for k in ("seed", "ref", "names")}
        if "problems" not in r:
            if "died" in r:
                ctx.violation("process died", dict(job=what, result=r))
                continue
            raise RuntimeError(f"harness: {r}")
        for p in r["problems"]:
            ctx.violation(p[0], dict(job=what, ops=r["ops"], detail=p[1]), files=r["files"])
        for o in r["ops"]:
            ctx.count("operation " + o)
        ctx.count("snapshots compared")
        ctx.evaluated([r["ops"], r["made"]], len(r["ops"]))
        ctx.sample(dict(case=what, ops=r["ops"]), 3)

    # command line
    cli = ctx.mkdir("cli")
    make(dict(seed=rng.getrandbits(40), ref="v3.3", names=["ext_ok", "soft_cycle"]), cli)
    os.mkdir(os.path.join(cli, "tmp"))
    before = snapshot(cli)
    nxdl = os.path.join(common.CACHE, "v3.3", "base_classes", "NXdata.nxdl.xml")
    cli_args = (["validate", "f0.h5"], ["tree", "f0.h5"], ["tree", "junk.h5"], ["validate", "junk.h5"], ["validate", "f1.h5", "-f", "a4fd52d", "--report", "ERROR"],
                 ["tree", "-a", "-m", "2", "f1.h5"], ["tree", nxdl], ["validate", nxdl], ["demo"], ["configuration"], ["validate", "empty.h5"])
    ctx.parallel(lambda a: ctx.punx(a, cwd=cli, env=dict(TMPDIR=os.path.join(cli, "tmp"))), cli_args)
    for args in cli_args:
        ch = diff(before, snapshot(cli))
        ctx.evaluated(["cli", args[0], os.path.basename(args[-1])])
        ctx.count("command line runs")
        if ch:
            ctx.violation("files were changed by punx commands", dict(args=cli_args, changes=ch))
            break
    ch = diff(cache_before, snapshot(common.CACHE))
    ctx.count("source cache files watched", len(cache_before))
    if ch:
        ctx.violation("source cache was changed", ch[:5])

    # read-only file, in a read-only directory, unprivileged user
    if os.getuid() == 0:
        ro = ctx.mkdir("readonly")
        make(dict(seed=rng.getrandbits(40), ref="v3.3", names=["ext_ok"]), ro)
        for fn in os.listdir(ro):
            os.chmod(os.path.join(ro, fn), 0o444)
        os.chmod(ro, 0o555)
        os.chmod(ctx.scratch, 0o755)
        home = ctx.mkdir("nobody")
        os.chmod(home, 0o777)
        before = snapshot(ro)
        p = subprocess.run([common.PYTHON, "-B", "-c", UNPRIVILEGED, ro, "v3.3"], env=ctx.env(home, HOME=home, PYTHONPYCACHEPREFIX="", PYTHONDONTWRITEBYTECODE="1"),
                           cwd="/", capture_output=True, timeout=200, stdin=subprocess.DEVNULL)
        out, err = p.stdout.decode(), p.stderr.decode("utf8", "replace")
        if p.returncode == 0 and out.count("READ") >= 2 and "False" not in out:
            ctx.count("read-only files used", out.count("READ"))
            ctx.evaluated(["read-only"], out.count("READ"))
            if diff(before, snapshot(ro)):
                ctx.violation("read-only files were changed", diff(before, snapshot(ro)))
        elif "from punx" not in err and ("setgroups" in err or "PermissionError" in err and "/repo" in err):
            ctx.extra["read-only"] = "not available here: " + err[-200:]
        elif "WRITABLE" in out:
            ctx.extra["read-only"] = "not available here: user can write everywhere"
        else:
            ctx.violation("read-only file is not usable", dict(exit_code=p.returncode, stdout=out, stderr=err[-800:]), files=[os.path.join(ro, "f0.h5")])
        os.chmod(ro, 0o755)
