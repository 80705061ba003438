"""C21: the command line does what the library does, and its exit code says if it could"""
import io
import logging
import os
import random
import sys
import traceback

import h5py

from checks import c20
from vlib import common, filesets, h5gen

RULE = ("command lines made from an intent (subcommand, options in all their spellings and orders, files: HDF5, NeXus, NXDL, text, empty, cut, missing, directories, odd names) or broken on purpose; "
        "each in its own process, from several working directories; exit code compared with the intent, output with that of the library called with the same settings in another process; "
        "distinct by (intent, spelling, kind of file, exit code)")
ASSUMPTIONS = ["installs get archives from a directory instead of GitHub", "the library output is judged by the other checks", "unique abbreviations of long options are those of argparse"]
KINDS = ["hdf5", "not hdf5", "missing", "nxdl", "nxdl not valid", "not nxdl", "nxdl missing"]
COMMANDS = "configuration demonstrate install tree validate".split()
STATUSES = "OK NOTE WARN ERROR TODO UNUSED COMMENT OPTIONAL".split()
WARNING = "\n!!! WARNING: this program is not ready for distribution.\n\n"


# ---- processes

def forked(fn, path, cwd):
    """run fn() in a child process, output to files, return (exit code, stdout, stderr)"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.chdir(cwd)
            logging.disable(logging.NOTSET)
            for n, ext in ((1, ".out"), (2, ".err")):
                fd = os.open(path + ext, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, n)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf8", write_through=False)
            sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf8", write_through=True)
            try:
                fn()
                code = 0
            except SystemExit as exc:
                c = exc.code
                code = 0 if c is None else c if isinstance(c, int) else 1
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
        finally:
            os._exit(code & 255)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    out = []
    for ext in (".out", ".err"):
        with open(path + ext, encoding="utf8", errors="replace") as f:
            out.append(f.read())
    return code, out[0], out[1]


def command(argv, prelude):
    def fn():
        from punx import main

        if prelude:
            exec(prelude, {})
        sys.argv = ["punx"] + argv
        main.main()

    return fn


def library(intent):
    """print what the library reports for this intent"""
    def fn():
        from punx import cache_manager, finding, h5tree, nxdltree, validate

        sys.stdout.reconfigure(errors="backslashreplace")
        kind = intent["do"]
        if kind == "tree":
            fn = os.path.abspath(intent["file"])
            if fn.endswith(".nxdl.xml"):
                mc = nxdltree.NxdlTreeView(fn)
            else:
                mc = h5tree.Hdf5TreeView(fn)
                mc.array_items_shown = intent["max"]
            print("\n".join(mc.report(intent["attrs"])))
        elif kind == "validate":
            ref = intent["set"] or cache_manager.CacheManager().default_file_set.ref
            if intent["file"].endswith(".nxdl.xml"):
                validate.validate_xml(intent["file"], ref)
                print(intent["file"], " validates")
            else:
                v = validate.Data_File_Validator(ref)
                v.validate(intent["file"])
                v.print_report([s for s in intent["report"]])
                print("NeXus definitions version: " + ref)
        elif kind == "configuration":
            cm = cache_manager.CacheManager()
            print("Locally-available versions of NeXus definitions (NXDL files)")
            print(cm.table_of_caches())
            print("default NXDL file set: ", cm.default_file_set.ref)
        elif kind == "demonstrate":
            import punx

            demo = os.path.join(os.path.dirname(punx.__file__), "data", "writer_1_3.hdf5")
            ref = cache_manager.CacheManager().default_file_set.ref
            print("")
            print("console> punx validate " + demo)
            v = validate.Data_File_Validator(ref)
            v.validate(demo)
            v.print_report(sorted(finding.VALID_STATUS_DICT))
            print("NeXus definitions version: " + ref)
            print("")
            print("console> punx tree " + demo)
            mc = h5tree.Hdf5TreeView(demo)
            print("\n".join(mc.report(True)))

    return fn


# ---- command lines

def spell_option(rng, forms, value):
    f = rng.choice(forms)
    if value is None:
        return [f]
    if f.startswith("--"):
        return [f + "=" + value] if rng.random() < 0.5 else [f, value]
    return [f + value] if rng.random() < 0.4 and value else [f, value]


def shuffle_options(rng, options, positional):
    """options and positional arguments in any order"""
    items = [(o, False) for o in options]
    rng.shuffle(items)
    if positional is not None:
        items.insert(rng.randrange(len(items) + 1), (positional, True))
    return [w for o, _ in items for w in o]


def spell_command(rng, name):
    return name if rng.random() < 0.3 else name[: rng.randrange(2, len(name) + 1)]


def case_mix(rng, s):
    return "".join(c.lower() if rng.random() < 0.5 else c.upper() for c in s)


def cwd_file(fn):
    return os.path.join(CWD[0], fn)


CWD = [None]


def grid():
    """what has to be in every run: each prefix, kind of file, limit and text of an option"""
    out = [dict(do=c, cmd=c[:n]) for c in ("tree", "validate", "configuration", "demonstrate") for n in range(2, len(c) + 1)]
    out += [dict(do=do, kind=k) for do in ("tree", "validate") for k in KINDS]
    out += [dict(do="tree", kind="hdf5", attrs=a, max=m) for m in (None, 0, 1, 2, 3, 4, 5, 6, 8, 1000) for a in (True, False)]
    out += [dict(do="tree", kind="nxdl", attrs=a, max=m) for m in (None, 4) for a in (True, False)]
    out += [dict(do="validate", kind=k, set=s) for s in common.SETS + ("nosuch", "V3.3", "v3", "", "v3.3 ", "v3.3,v2018.5", ".", "..") for k in ("hdf5", "nxdl", "nxdl not valid")]
    out += [dict(do="validate", kind="hdf5", report=r) for r in (
        *STATUSES, *map(str.lower, STATUSES), "Error,wArn", ",".join(STATUSES), "OK,OK", "", ",", ",,", "ERROR,", ",ERROR", "ERROR,,WARN", "BAD", "ERROR,BAD",
        "BAD,ERROR", "OK ", " OK", "OK, NOTE", "ERR", "None", "TOTAL", "O", "K", "ERROR WARN", "all", "OK;NOTE", "0", "40")]
    out += [dict(do="validate", kind=k, report="BAD") for k in ("missing", "not hdf5")]
    out += [dict(do="usage", word=c[:n] + x) for c in COMMANDS for n in range(2, len(c) + 1) for x in ("_", c[n - 1], c[n:].upper(), "x" + c[n:]) if x]
    out += [dict(do="usage", word=c[n:]) for c in COMMANDS for n in (1, 2, len(c) - 2)]
    return out


def make_intent(rng, files, spec={}):
    do = spec.get("do") or rng.choices(["tree", "validate", "configuration", "demonstrate", "usage"], [40, 45, 4, 2, 25])[0]
    if spec.get("kind"):
        files = [f for f in files if f[1] == spec["kind"]]
    cmd = spec.get("cmd")
    if do == "tree":
        fn, kind = rng.choice(files)
        it = dict(do=do, file=fn, kind=kind, attrs=True, max=5)
        opts = []
        if not spec.get("attrs", rng.random() < 0.6):
            it["attrs"] = False
            opts.append(["-a"])
        limit = spec.get("max", rng.choice([None] * 9 + [0, 3, 4, 5, 6, 7, 10, 50, 1000]))
        if limit is not None:
            it["max"] = limit
            opts.append(spell_option(rng, ["-m", "--max_array_items", "--max"], str(it["max"])))
        argv = [cmd or spell_command(rng, do)] + shuffle_options(rng, opts, [fn])
        it["code"] = 0 if kind in ("hdf5", "nxdl", "nxdl not valid") else 1
        it["words"] = len(opts)
        return it, argv
    if do == "validate":
        fn, kind = rng.choice(files)
        it = dict(do=do, file=fn, kind=kind, set=None, report=list(sorted(STATUSES)))
        opts, bad = [], []
        if "set" in spec or not spec and rng.random() < 0.5:
            it["set"] = spec["set"] if "set" in spec else rng.choice(list(common.SETS) * 3 + ["nosuch", "V3.3", "v3", ""])
            opts.append(spell_option(rng, ["-f", "--file_set_name", "--file"], it["set"]))
            if it["set"] not in common.SETS:
                bad.append("file set")
        if "report" in spec:
            it["report"] = spec["report"].upper().split(",")
            if not set(it["report"]) <= set(STATUSES):
                bad.append("report")
            opts.append(spell_option(rng, ["--report", "--rep"], spec["report"]))
        elif not spec and rng.random() < 0.6:
            n = rng.choice([1, 1, 2, 3, 8])
            it["report"] = [rng.choice(STATUSES) for _ in range(n)]
            text = list(it["report"])
            if rng.random() < 0.15:
                text.insert(rng.randrange(len(text) + 1), rng.choice(["BAD", "", "OK ", "ERR", "None", "TOTAL"]))
                if kind != "nxdl" and kind != "nxdl not valid" and kind != "nxdl missing":
                    bad.append("report")
            text = ",".join(text)
            opts.append(spell_option(rng, ["--report", "--rep"], case_mix(rng, text) if rng.random() < 0.6 else text))
        argv = [cmd or spell_command(rng, do)] + shuffle_options(rng, opts, [fn])
        ok = kind == "hdf5"
        if kind.startswith("nxdl") and it["set"] in (None,) + common.SETS:
            ok = c20.oracle(cwd_file(fn), os.path.join(common.CACHE, it["set"] or "v2018.5", "nxdl.xsd"))[0] == "valid"
        it["code"] = 0 if ok and not bad else 1
        it["bad"] = bad
        it["words"] = len(opts)
        return it, argv
    if do in ("configuration", "demonstrate"):
        return dict(do=do, code=0, kind=""), [cmd or spell_command(rng, do)]
    fn = rng.choice(files)[0]
    if "word" in spec:
        word = spec["word"]
        if any(c.startswith(word) for c in COMMANDS):
            word += "-"
        return dict(do="unknown subcommand", code=2), [word] + rng.choice([[], [fn]])
    k = rng.randrange(9)
    if k == 0:
        return dict(do="no subcommand", code=1), []
    if k == 1:
        c = rng.choice([c[:1] for c in COMMANDS] + ["", "x"])
        return dict(do="too short", code=2), [c] + rng.choice([[], [fn]])
    if k == 2:
        c = rng.choice(COMMANDS)
        c = rng.choice([c + "s", c.upper(), " " + c, c + " ", c[1:], c[:2] + "_", "update", "hierarchy", "structure", "help", "co\n", c[:3] + c, "é" + c])
        return dict(do="unknown subcommand", code=2), [c] + rng.choice([[], [fn]])
    if k == 3:
        return dict(do="no file", code=2), [spell_command(rng, rng.choice(["tree", "validate"]))]
    if k == 4:
        return dict(do="unexpected argument", code=2), [spell_command(rng, rng.choice(["tree", "validate"])), fn] + rng.choice([["more"], ["--nosuch"], ["-x"], ["-u"]])
    if k == 5:
        return dict(do="not a number", code=2), ["tree", fn] + spell_option(rng, ["-m", "--max_array_items"], rng.choice(["x", "1.5", "", "0x10", "5 6"]))
    if k == 6:
        return dict(do="option without value", code=2), rng.choice([["tree", fn, "-m"], ["validate", fn, "-f"], ["validate", fn, "--report"]])
    if k == 7:
        return dict(do="help", code=0), rng.choice([["-h"], ["--help"]] + [[spell_command(rng, c), "-h"] for c in COMMANDS])
    return dict(do="version", code=0), rng.choice([["-v"], ["--version"], ["-v", "tree"]])


def judge(it, argv, got, lib):
    code, out, err = got
    problems = []
    if code != it["code"]:
        problems.append(f"exit code {code}, expected {it['code']}")
    if "Traceback" in err:
        problems.append("exception")
    if not out.startswith(WARNING):
        problems.append("output starts with other text")
    out = out[len(WARNING):]
    if lib is not None:
        if it["code"] == 0 and (lib[0] != 0 or lib[1] != out):
            problems.append("output is not that of the library" if lib[0] == 0 else "library failed: " + lib[2][-300:])
        if it["code"] != 0 and out:
            problems.append("output although it failed")
        if it["code"] == 1 and not err.strip():
            problems.append("no message")
    if it["do"] == "no subcommand" and "must specify a subcommand" not in out:
        problems.append("no message")
    if it["code"] == 2 and "error:" not in err:
        problems.append("no message")
    if it["do"] == "help" and "usage: punx" not in out:
        problems.append("no usage")
    return problems


def case(job):
    rng = random.Random(job["seed"])
    import punx
    from punx import h5tree, main, nxdltree, validate  # noqa: in the parent, once

    os.makedirs(job["dir"], exist_ok=True)
    log = os.path.join(job["dir"], "log")
    out = dict(problems=[], seen=[])
    files = [tuple(f) for f in job["files"]]
    for spec in job["grid"] + [{}] * job["n"]:
        cwd = rng.choice([job["dir"], os.path.dirname(files[0][0])])
        CWD[0] = cwd
        rel = rng.random() < 0.5
        names = [(os.path.relpath(f, cwd) if rel else f, k) for f, k in files]
        names = [(f, k) for f, k in names if not f.startswith("-")]
        it, argv = make_intent(rng, names, spec)
        got = forked(command(argv, None), log, cwd)
        lib = forked(library(it), log, cwd) if it["do"] in COMMANDS and it["code"] == 0 else None if it["do"] not in COMMANDS else (1, "", "")
        ps = judge(it, argv, got, lib)
        if ps:
            out["problems"].append([ps[0], dict(intent=it, argv=argv, problems=ps, exit_code=got[0], stdout=got[1][-3000:], stderr=got[2][-1500:], library=lib and lib[1][-3000:])])
        if it["do"] == "version" and got[1][len(WARNING):].strip() != punx.__version__:
            out["problems"].append(["version", dict(argv=argv, stdout=got[1])])
        out["seen"].append([{k: v for k, v in it.items() if k not in ("file",)}, argv[:1], got[0]])
    return out


def install_case(job):
    """histories of install: which archives are requested, exit codes, what is installed"""
    rng = random.Random(job["seed"])
    from punx import main, validate  # noqa

    os.makedirs(job["zips"])
    log, urls = os.path.join(job["zips"], "log"), os.path.join(job["zips"], "urls")
    avail = {}
    base = os.path.join(job["config"], "punx")
    installed, out = {}, dict(problems=[], seen=[])
    for step in range(job["n"]):
        for nm in ("main", "v1", "v2", "v3"):  # new commits
            if rng.random() < 0.5 or nm == "main" and nm not in avail:
                raw, members, _ = filesets.archive(rng)
                open(os.path.join(job["zips"], nm + ".zip"), "wb").write(raw)
                avail[nm] = filesets.installed_content(members)[0]
        names = rng.choice([[], [], ["main"], [rng.choice(["v1", "v2", "v3", "nosuch", "down", "down-v1"])], rng.sample(["main", "v1", "v2", "v3", "nosuch", "down"], 3), ["v1", "v1"]])
        update = rng.random() < 0.5
        argv = [spell_command(rng, "install")] + shuffle_options(rng, [[rng.choice(["-u", "--update", "--up"])]] if update else [], names)
        if os.path.exists(urls):
            os.remove(urls)
        todo, code, want = names or ["main"], 0, []
        for nm in todo:
            if nm in installed and not update:
                continue
            want.append(f"https://github.com/nexusformat/definitions/archive/{nm}.zip")
            if nm not in avail:
                code = 1
                break
            installed[nm] = avail[nm]
        rc, o, e = forked(command(argv, filesets.fake(job["zips"], urls)), log, job["zips"])
        asked = open(urls).read().split("\n")[:-1] if os.path.exists(urls) else []
        detail = dict(argv=argv, exit_code=rc, expected=code, requested=asked, expected_requests=want, stdout=o[-1500:], stderr=e[-1000:])
        if rc != code:
            out["problems"].append(["install: exit code", detail])
        if asked != want:
            out["problems"].append(["install: requests other archives", detail])
        have = filesets.snapshot(base) if os.path.isdir(base) else {}
        got = {}
        for k, v in have.items():
            if "/" in k and not k.endswith(filesets.INFO):
                got.setdefault(k.split("/")[0], {})[k.split("/", 1)[1]] = v
        if got != installed:
            out["problems"].append(["install: content", dict(detail, got=sorted(got), want=sorted(installed))])
        if code == 0 and not all(any(line.split()[:1] == [nm] for line in o.split("\n")) for nm in installed):
            out["problems"].append(["install: table", detail])
        if code == 0 and not filesets.default_is_newest(o):
            out["problems"].append(["install: the default file set is not the newest of the table", detail])
        out["seen"].append([argv[1:], rc, sorted(installed)])
    return out


def make_files(ctx, rng):
    """files of all kinds; (path, kind)"""
    d = ctx.mkdir("files")
    out = []

    def name(stem, ext):
        return os.path.join(d, stem + rng.choice(["", " with space", "_é", "@x", "-1"]) + str(len(out)) + ext)

    data = os.path.join(common.REPO, "punx", "data")
    for fn in ("writer_1_3.hdf5", "verysimple.nx5", "33id_spec_22_2D.hdf5", "Data_Q.h5", "writer_2_1.hdf5", "gov_5.h5"):
        out.append((os.path.join(data, fn), "hdf5"))
    for i in range(12):
        p = name("gen", rng.choice([".h5", ".nxs", "", ".xml", ".NXDL.XML", ".nxdl"]))
        h5gen.random_file(rng, p)
        out.append((p, "hdf5"))
    p = name("empty", ".h5")
    h5py.File(p, "w").close()
    out.append((p, "hdf5"))
    for ext in (".h5", ".nxs", ""):
        p = name("text", ext)
        open(p, "w").write("not HDF5")
        out.append((p, "not hdf5"))
    p = name("zero", ".h5")
    open(p, "w").close()
    out.append((p, "not hdf5"))
    p = name("cut", ".h5")
    raw = open(os.path.join(data, "writer_1_3.hdf5"), "rb").read()
    open(p, "wb").write(raw[: len(raw) // 2])
    out.append((p, "not hdf5"))
    p = name("dir", ".h5")
    os.mkdir(p)
    out.append((p, "not hdf5"))
    out.append((name("missing", ".h5"), "missing"))
    out.append((os.path.join(d, "nodir", "x.h5"), "missing"))
    out.append((name("missing", ".nxdl.xml"), "nxdl missing"))
    for s in common.SETS:
        for c, nm in (("base_classes", "NXdata"), ("applications", "NXsas"), ("contributed_definitions", None)):
            src = os.path.join(common.CACHE, s, c)
            nm = nm or sorted(f for f in os.listdir(src) if f.endswith(".nxdl.xml"))[0].split(".")[0]
            text = open(os.path.join(src, nm + ".nxdl.xml"), encoding="utf8").read()
            if c == "contributed_definitions" and 'category="contributed"' not in text:
                continue
            if nm == "NXdata":
                out.append((name(nm, ".nxdl.xml"), "nxdl not valid"))
                open(out[-1][0], "w", encoding="utf8").write(text.replace("<field ", "<field nosuch='1' ", 1))
    p = name("NXverif", ".nxdl.xml")
    open(p, "w").write(filesets.NXDL % ("NXverif", "documentation", "x"))
    out.append((p, "nxdl"))
    p = name("NXnot", ".nxdl.xml")
    open(p, "w").write("not XML")
    out.append((p, "not nxdl"))
    p = name("NXhdf5", ".nxdl.xml")
    open(p, "wb").write(raw)
    out.append((p, "not nxdl"))
    return out


def run(ctx):
    rng = ctx.rng("cli")
    files = make_files(ctx, rng)
    must = grid()
    rng.shuffle(must)
    jobs = [dict(op="call", call="checks.c21:case", grid=must[i::8], dir=ctx.mkdir("work%d" % i), seed=rng.getrandbits(48), files=files, n=ctx.pick(40, 700)) for i in range(8)]
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "problems" not in r:
            ctx.violation("command lines died", dict(result=r))
            continue
        for title, detail in r["problems"]:
            ctx.violation("command line: " + title.split(":")[0], dict(detail, what=title))
        for it, argv, code in r["seen"]:
            it.pop("max", None)
            ctx.evaluated([it, argv, code])
            ctx.count("exit code %s" % code)
        ctx.sample(r["seen"][:5], 2)
    items = []
    for i in range(ctx.pick(8, 40)):
        cfg = ctx.mkdir("config%d" % i)
        items.append((cfg, dict(op="call", call="checks.c21:install_case", config=cfg, zips=os.path.join(ctx.scratch, "zips%d" % i), seed=rng.getrandbits(48), n=ctx.pick(12, 60))))
    for (cfg, j), r in zip(items, ctx.parallel(lambda it: ctx.run_jobs([it[1]], workers=1, config=it[0])[0], items)):
        if "problems" not in r:
            ctx.violation("installs died", dict(result=r))
            continue
        for title, detail in r["problems"]:
            ctx.violation(title, detail)
        for s in r["seen"]:
            ctx.evaluated(["install"] + s)
    # the installed program, as a real process
    for rc, out, err in ctx.parallel(lambda a: ctx.punx(a), [["tree", files[0][0]], ["validate", files[0][0]], ["de"], ["co"], [], ["tree", files[-1][0]]]):
        ctx.evaluated(["process", rc])
        if "Traceback" in err:
            ctx.violation("command line: exception", dict(stderr=err[-1000:]))
