"""C09: findings do not depend on how HDF5 stores the same content"""
import contextlib
import os
import random

import h5py
import numpy

from vlib import cases, common, h5gen, nxdlref, worker

RULE = ("random logical NeXus trees, each written in several ways (text: variable/fixed length, ASCII/UTF-8, scalar or array of one; numbers: width, "
        "byte order, scalar or array of one; datasets: contiguous, chunked, compressed, in external or virtual files, never written (fill value); creation order; file format version; user block; "
        "dense attributes; order of attributes); (address, test, status) of all findings must agree; non-trivial: at least 10 findings, distinct by logical tree and style")
ASSUMPTIONS = ["@NX_class is written as scalar text (an array is not NeXus)"]


# ---- logical tree: ["group", nx_class, {attrs}, [(name, node), ...]], ["data", value, {attrs}], ["soft", path], ["hard", path]

class T(str):
    """text value"""


def text_list(v):
    return isinstance(v, list) and all(isinstance(x, str) for x in v)


def logical(rng, fs):
    paths = []

    def attrs(is_data, path):
        a = {}
        while rng.random() < 0.4 and len(a) < 5:
            a[rng.choice(h5gen.ATTR_NAMES + h5gen.RELAXED[:4] + h5gen.INVALID[:6])] = rng.choice(
                ["m", "text", "µm", 1, 2.5, [1, 2], ["a", "b"], ["naïve", "x"]])
        if is_data and rng.random() < 0.15:
            a["signal"] = rng.choice([1, "1", 2, "x"])
        if is_data and rng.random() < 0.1:
            a["axes"] = rng.choice(["x", "x:y", ["x", "y"], "nothere"])
        if rng.random() < 0.1:
            a["target"] = rng.choice([path, "/entry", "/nothere", "rel", "/entry/data/y"])
        return a

    def value():
        return rng.choice([1, -5, 2.5, [0, 0, 0], [7, 7], [[0, 0], [0, 0]], "text", "Å text", [1, 2, 3], [1.5, 2], ["ab", "c"], ["é", "ff"], [[1, 2], [3, 4]], 7, "2020-01-01T00:00:00", "NX_FLOAT"])

    def group(cls, depth, path):
        kids, used = [], set()

        def add(nm, node):
            if nm not in used and nm:
                used.add(nm)
                kids.append((nm, node))
                paths.append(path.rstrip("/") + "/" + nm)

        spec = fs.classes.get(cls)
        fields = list(spec.fields) if spec else []
        for _ in range(rng.randrange(5)):
            nm = rng.choice(fields) if fields and rng.random() < 0.6 else rng.choice(h5gen.STRICT + h5gen.RELAXED + h5gen.INVALID[:8])
            v = value()
            if nm in fields and spec.fields[nm].enumerations and rng.random() < 0.7:
                v = rng.choice(spec.fields[nm].enumerations)
            add(nm, ["data", v, attrs(True, path.rstrip("/") + "/" + nm)])
        if depth > 0:
            for _ in range(rng.randrange(4)):
                sub = rng.choice(h5gen.BASES + h5gen.ODD_CLASSES[:6] + [None, "foo"])
                nm = rng.choice(h5gen.STRICT + ["data", "instrument", "sample", "Bad Name"])
                if nm not in used:
                    add(nm, group(sub, depth - 1, path.rstrip("/") + "/" + nm))
        if rng.random() < 0.2 and paths:
            add("l%d" % rng.randrange(9), ["soft", rng.choice(paths + ["/nothere"])])
        if cls in ("NXentry", "NXsubentry") and rng.random() < 0.5:
            d = rng.choice([k for k, c in fs.classes.items() if c.category == "applications"] + ["NXnosuch", "NXdata"])
            add("definition", ["data", d, {}])
            e = fs.entry_of(d) if d in fs.classes else None
            if e is not None:
                for f, s in e.fields.items():
                    if rng.random() < 0.6:
                        add(f, ["data", rng.choice(s.enumerations) if s.enumerations else value(), {}])
        a = attrs(False, path)
        names = [k for k, _ in kids]
        if cls == "NXdata" and names and rng.random() < 0.8:
            a["signal"] = rng.choice(names + ["nothere"])
            a["axes"] = rng.choice([names[0], [rng.choice(names), "."], [rng.choice(names)], ["nope", names[0]], "nope"])
        if cls in ("NXentry", "NXroot") and names and rng.random() < 0.8:
            a["default"] = rng.choice(names + ["nothere"])
        return ["group", cls, a, kids]

    entries = []
    for i in range(rng.choice([1, 1, 2])):
        entries.append((["entry", "scan_2"][i], group("NXentry", 3, "/" + ["entry", "scan_2"][i])))
    root = group("NXroot", 0, "/")
    root[3] = entries + [k for k in root[3] if k[0] not in ("entry", "scan_2")]
    root[2].setdefault("default", rng.choice(["entry", "nothere"]))
    return root


STYLES = ["plain", "fixed", "vlen", "arrays", "random", "random", "order", "dense"]


class Writer:
    def __init__(self, rng, style):
        self.rng, self.style = rng, style
        self.virtual = False
        self.files = []

    def choose(self, options, plain=0):
        if self.style == "plain":
            return options[plain]
        return self.rng.choice(options)

    def text(self, v, array_ok=True):
        """HDF5 representation (value, dtype) of text or list of text"""
        lst = isinstance(v, list)
        vals = v if lst else [v]
        ascii_ = all(x.isascii() for x in vals)
        kinds = ["vlen8", "fixed8"] + (["vlena", "fixeda"] if ascii_ else [])
        if self.style == "plain":
            k = "vlen8"
        elif self.style == "fixed":
            k = self.rng.choice([x for x in kinds if x.startswith("fixed")])
        elif self.style == "vlen":
            k = self.rng.choice([x for x in kinds if x.startswith("vlen")])
        else:
            k = self.rng.choice(kinds)
        if not all(vals):
            k = "vlen8"
        enc = "utf-8" if k.endswith("8") else "ascii"
        if k.startswith("vlen"):
            dt = h5py.string_dtype(enc)
        else:
            n = max(len(x.encode("utf8")) for x in vals) + (self.rng.randrange(4) if self.style != "plain" else 0)
            dt = h5py.string_dtype(enc, n)
            vals = [x.encode("utf8") for x in vals]
        if lst:
            return numpy.array(vals, dtype=dt)
        arr = array_ok and (self.style == "arrays" or (self.style in ("random", "dense") and self.rng.random() < 0.4))
        if arr:
            return numpy.array(vals, dtype=dt)
        return numpy.array(vals[0], dtype=dt)

    def number(self, v, array_ok=True):
        a = numpy.array(v)
        if self.style != "plain":
            if a.dtype.kind == "i":
                # the class of number stays what it was
                a = a.astype(self.rng.choice(["i1", "i2", "<i4", ">i4", "i8", ">i8"] + (["u1", "u2", "u8"] if (a >= 0).all() else [])))
            else:
                a = a.astype(self.rng.choice(["f4", "f8", ">f8", ">f4"]))
            if a.ndim == 0 and array_ok and self.rng.random() < (0.9 if self.style == "arrays" else 0.3):
                a = a.reshape(1)
        return a

    def value(self, v, array_ok=True):
        if isinstance(v, str) or text_list(v):
            return self.text(v, array_ok)
        return self.number(v, array_ok)

    def attrs(self, obj, attrs):
        items = list(attrs.items())
        if self.style in ("random", "order", "dense"):
            self.rng.shuffle(items)
        for k, v in items:
            a = self.value(v)
            if k == "NX_class":
                a = self.text(v, False)
            obj.attrs.create(k, a, dtype=a.dtype)

    def elsewhere(self, g, nm, a):
        """the values are in another file, or never written: they are the fill value"""
        k = self.rng.randrange(3)
        fn = "%s_%d" % (g.file.filename, len(self.files))
        if len(set(a.ravel())) == 1:
            return g.create_dataset(nm, a.shape, a.dtype, fillvalue=a.ravel()[0], chunks=self.rng.choice([None, True]))
        if k == 0:
            a.tofile(fn)
            self.files.append(fn)
            return g.create_dataset(nm, a.shape, a.dtype, external=[(fn, 0, a.nbytes)])
        if k == 1 and self.virtual:
            with h5py.File(fn, "w") as f:
                f["values"] = a
            self.files.append(fn)
            layout = h5py.VirtualLayout(a.shape, a.dtype)
            layout[...] = h5py.VirtualSource(os.path.basename(fn), "values", a.shape, a.dtype)
            return g.create_virtual_dataset(nm, layout)
        return g.create_dataset(nm, data=a, dtype=a.dtype)

    def group(self, g, node):
        _, cls, attrs, kids = node
        attrs = dict(attrs)
        if cls and g.name != "/":
            attrs["NX_class"] = cls
        late = self.style in ("random", "order") and self.rng.random() < 0.5
        if not late:
            self.attrs(g, attrs)
        kids = list(kids)
        if self.style in ("random", "order"):
            self.rng.shuffle(kids)
        for nm, node in kids:
            if node[0] == "group":
                kw = {} if self.style == "plain" else dict(track_order=self.rng.random() < 0.5)
                self.group(g.create_group(nm, **kw), node)
            elif node[0] == "soft":
                g[nm] = h5py.SoftLink(node[1])
            else:
                a = self.value(node[1])
                kw = {}
                if self.style != "plain" and a.ndim > 0 and a.size:
                    k = self.rng.randrange(6)
                    if k == 0:
                        kw = dict(chunks=True)
                    elif k == 1:
                        kw = dict(compression="gzip")
                    elif k == 2 and a.dtype.kind in "iuf":
                        kw = dict(compression="lzf", shuffle=True)
                    elif k == 3:
                        kw = dict(maxshape=(None,) * a.ndim)
                    elif k == 4 and a.dtype.kind in "iuf":
                        kw = dict(fletcher32=True, fillvalue=1)
                if self.style != "plain" and self.rng.random() < 0.3:
                    kw["track_order"] = True
                if self.style != "plain" and a.dtype.kind in "iuf" and a.ndim and self.rng.random() < 0.5:
                    ds = self.elsewhere(g, nm, a)
                else:
                    ds = g.create_dataset(nm, data=a, dtype=a.dtype, **kw)
                self.attrs(ds, node[2])
        if late:
            self.attrs(g, attrs)
        return g


def write(path, tree, style, rng):
    kw = {}
    if style == "dense":
        kw = dict(libver="latest")
    elif style in ("random", "order"):
        kw = rng.choice([{}, dict(track_order=True), dict(libver="latest"), dict(libver=("earliest", "v108")), dict(userblock_size=1024), dict(libver="v110", track_order=True)])
    with h5py.File(path, "w", **kw) as f:
        w = Writer(rng, style)
        w.virtual = kw.get("libver") == "latest"
        w.group(f, tree)
    return w.files


def project(findings):
    return sorted([str(f[0]), f[1], f[2]] for f in findings)


def case(job):
    rng = random.Random(job["seed"])
    tree = logical(rng, nxdlref.bundled(job["ref"]))
    ref = None
    out = dict(variants=0, problems=[], styles=[], findings=0)
    for n, style in enumerate(job["styles"]):
        path = os.path.join(job["dir"], f"c{job['n']}_{n}_{style}.h5")
        more = write(path, tree, style, random.Random(f"{job['seed']}|{n}"))
        out["other_files"] = out.get("other_files", 0) + len(more)
        v = worker.op_validate(dict(file=path, ref=job["ref"]))
        if "exc" in v:
            out["problems"].append(["no verdict: " + v["exc"]["type"], dict(style=style, exc=v["exc"])])
            out["files"] = [path] + more
            continue
        got = project(v["findings"])
        out["variants"] += 1
        if ref is None:
            ref, base = got, path
            out["findings"] = len(got)
        elif got != ref:
            a = [x for x in ref if x not in got]
            b = [x for x in got if x not in ref]
            out["problems"].append(["findings depend on the storage: " + ((a or b or [["", "count"]])[0][1].split("[")[0]),
                                    dict(style=style, only_plain=a[:6], only_style=b[:6])])
            out["files"] = [base, path] + more
            continue
        if path != base:
            for fn in [path] + more:
                os.remove(fn)
    if not out["problems"]:
        with contextlib.suppress(OSError):
            os.remove(base)
    return out


def run(ctx):
    rng = ctx.rng("storage")
    d = ctx.mkdir("cases")
    jobs = []
    for i in range(ctx.pick(130, 4000)):
        styles = ["plain"] + rng.sample(STYLES[1:], 4)
        jobs.append(dict(op="call", call="checks.c09:case", dir=d, n=i, seed=rng.getrandbits(40), ref=common.SETS[i % 3], styles=styles))
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "problems" not in r:
            if "exc" in r and not r["exc"]["where"]:
                raise RuntimeError(f"harness: {r} {j}")
            ctx.violation("no verdict", dict(job=j, result=r))
            continue
        for p in r["problems"]:
            ctx.violation(p[0], dict(seed=j["seed"], ref=j["ref"], detail=p[1]), files=r["files"])
        for s in j["styles"]:
            ctx.count("written as " + s)
        ctx.count("files with the values of datasets", r["other_files"])
        ctx.count("findings compared", r["findings"] * (r["variants"] - 1))
        if r["findings"] >= 10:
            for s in j["styles"][1:]:
                ctx.evaluated([j["seed"], s])
        else:
            ctx.evaluated(None, len(j["styles"]) - 1)
        ctx.sample(dict(seed=j["seed"], ref=j["ref"], styles=j["styles"], findings=r["findings"]))
