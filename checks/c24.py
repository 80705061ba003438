"""C24: what is a NeXus file, group, link, and the text of a value"""
import contextlib
import os
import random

import h5py
import numpy

from checks import c11
from vlib import common, h5gen, h5model, hostile, nxdlref

RULE = ("random and unusual HDF5 files (entries at odd places, by links of all kinds, NX_class in all storage forms, other classes, broken links first), isNeXusFile and Hdf5TreeView.isNeXus of each, "
        "then every object of each file with all predicates and all attribute values; values generated directly (arrays of any shape, text which is not UTF-8); compared with definitions written here; "
        "distinct by (kinds of root items, verdict), and by (type, shape, content of value)")
ASSUMPTIONS = ["NX_class which is an array is judged by its first item", "@target with non-text values is not judged", "object names are those h5py gives"]

CLASSES = ["NXentry", "NXentry ", "nxentry", "NXentries", "NXsubentry", "NXdata", "", "NXroot", "entry", "NXENTRY"]


def storage(rng, text):
    """one text in any HDF5 storage form"""
    b = text.encode("utf8")
    return rng.choice([
        text, b, numpy.array([text], dtype=h5py.string_dtype()), numpy.array([b], dtype="S%d" % max(1, len(b))),
        numpy.bytes_(b), numpy.array(text, dtype=h5py.string_dtype("ascii") if text.isascii() else h5py.string_dtype()),
        numpy.array(b, dtype="S%d" % (len(b) + 4)), numpy.array([[text]], dtype=h5py.string_dtype()), numpy.array([text, "NXother"], dtype=h5py.string_dtype())])


def root_items(rng, path):
    """a file with odd items in its root; returns their kinds"""
    kinds = []
    with h5py.File(path, "w", track_order=rng.random() < 0.5) as f:
        if rng.random() < 0.3:
            f.attrs["NX_class"] = rng.choice(["NXentry", "NXroot"])
        hidden = f.create_group("zz_hidden") if rng.random() < 0.5 else None
        if hidden is not None:
            g = hidden.create_group("entry")
            g.attrs["NX_class"] = storage(rng, "NXentry")
            if rng.random() < 0.3:
                hidden.attrs["NX_class"] = "NXdata"
        with h5py.File(path + ".other", "w") as o:
            g = o.create_group("e")
            g.attrs["NX_class"] = "NXentry"
            o.create_group("d").attrs["NX_class"] = "NXdata"
            if rng.random() < 0.5:
                o.attrs["NX_class"] = "NXentry"
        for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
            k = rng.randrange(14)
            nm = rng.choice(["a", "b", "c", "entry", "z"]) + str(i)
            if k <= 2:
                c = rng.choice(CLASSES)
                f.create_group(nm).attrs["NX_class"] = storage(rng, c)
                kinds.append("group " + c)
            elif k == 3:
                f[nm] = 1.5
                f[nm].attrs["NX_class"] = "NXentry"
                kinds.append("dataset NXentry")
            elif k == 4:
                f[nm] = h5py.SoftLink(rng.choice(["/nope", "/" + nm, "/zz_hidden/entry", "zz_hidden", "/zz_hidden/entry/none"]))
                kinds.append("soft")
            elif k == 5:
                f[nm] = h5py.ExternalLink(rng.choice(["none.h5", os.path.basename(path) + ".other"]), rng.choice(["/e", "/d", "/", "/none"]))
                kinds.append("external")
            elif k == 6 and hidden is not None:
                f[nm] = hidden["entry"]
                kinds.append("hard to NXentry")
            elif k == 7:
                f[nm] = f["/"]
                kinds.append("hard to root")
            elif k == 8:
                f.create_group(nm)
                kinds.append("group")
            elif k == 9:
                f.create_group(nm).attrs["NX_class"] = rng.choice([5, numpy.array([1, 2]), h5py.Empty("f"), h5py.Empty("S5"), numpy.array([], dtype="S3"), 2.5, True])
                kinds.append("group odd class")
            elif k == 10:
                f[nm] = numpy.dtype("f8")
                f[nm].attrs["NX_class"] = "NXentry"
                kinds.append("type NXentry")
            elif k == 11:
                f.create_group(nm + "x/y").attrs["NX_class"] = "NXentry"
                kinds.append("deep NXentry")
            elif k == 12:
                f[b"\xff\xfe" + nm.encode()] = 1
                kinds.append("odd name")
            elif k == 13:
                f.create_group(b"\xc3(" + nm.encode()).attrs["NX_class"] = "NXentry"
                kinds.append("odd name NXentry")
    return kinds


def class_text(obj):
    v = obj.attrs.get("NX_class")
    if isinstance(v, numpy.ndarray):
        v = v.ravel()[0] if v.size else None
    return h5model.txt(v) if isinstance(v, (str, bytes)) else None


def model_is_nexus(path):
    with h5py.File(path, "r") as f:
        for name in f:
            try:
                o = f[name]
            except (KeyError, OSError, RuntimeError):
                continue
            if isinstance(o, h5py.Group) and not isinstance(o, h5py.File) and class_text(o) == "NXentry":
                return True
    return False


def decoded(v):
    """decode_byte_string as documented"""
    if isinstance(v, (str, bytes)):
        return h5model.txt(v)
    if isinstance(v, numpy.ndarray) and v.dtype.kind in "OS":
        if v.size == 0:
            return None
        f = lambda x: [f(i) for i in x] if isinstance(x, list) else h5model.txt(x) if isinstance(x, (str, bytes)) else str(x)
        return f(v.tolist())
    return v


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def random_text(rng):
    return rng.choice([b"", b"abc", "µé".encode(), b"\xff\xfe", b"a\xc3(", "日本".encode(), b"NXentry", b"x" * 300, b" pad ", b"a\nb", "\U0001f600".encode(), b"'q\"", "e\u0301".encode()])


def random_value(rng):
    k = rng.randrange(9)
    if k == 0:
        return rng.choice([1, 2.5, True, None, numpy.float32(1.5), numpy.array([1, 2]), numpy.zeros((0,)), numpy.array(3), numpy.array([], dtype="S4"), numpy.array([], dtype=object), 1 + 2j, numpy.array([True])])
    b = random_text(rng)
    if k == 1:
        return b
    if k == 2:
        return b.decode("utf8", "surrogateescape")
    if k == 3:
        return numpy.bytes_(b)
    if k == 4:
        return numpy.array(b, dtype="S%d" % max(1, len(b)))
    shape = rng.choice([(1,), (2,), (3,), (1, 1), (2, 2), (2, 1, 2), ()])
    n = int(numpy.prod(shape))
    items = [random_text(rng) for _ in range(n)]
    if k <= 6:
        return numpy.array(items, dtype="S%d" % max(1, max(map(len, items)))).reshape(shape)
    a = numpy.empty(n, dtype=object)
    for i, x in enumerate(items):
        a[i] = x if rng.random() < 0.5 else x.decode("utf8", "surrogateescape")
    return a.reshape(shape)


def check_value(u, v, bad, seen):
    want, got = decoded(v), u.decode_byte_string(v)
    if not same(want, got):
        bad.append(["decode_byte_string", [repr(v), repr(want), repr(got)]])
    if u.decode_byte_string(got) is not None and isinstance(got, str) and u.decode_byte_string(got) != got:
        bad.append(["decoded twice", [repr(v), repr(got)]])
    t = want
    if isinstance(t, numpy.ndarray):
        t = t.tolist()
    if isinstance(t, list) and len(t) == 1:
        t = t[0]
    if u.text_value(v) != str(t):
        bad.append(["text_value", [repr(v), repr(u.text_value(v)), str(t)]])
    seen.append([type(v).__name__, list(getattr(v, "shape", None) or []), repr(want)[:60]])


def objects(f, limit=60):
    """(parent, name, object) of the file, objects of broken links are None"""
    todo, chain, out = [f["/"]], set(), []
    while todo and len(out) < limit:
        g = todo.pop()
        key = h5model.ident(g)
        if key in chain:
            continue
        chain.add(key)
        for name in g:
            try:
                o = g[name]
            except (KeyError, OSError, RuntimeError):
                o = None
            out.append((g, name, o))
            if isinstance(o, h5py.Group):
                todo.append(o)
    return out


def check_object(u, g, name, o, rng, bad, seen):
    link = u.link_in_group(g, name)
    raw = g.id.links.get_info(name if isinstance(name, bytes) else name.encode("utf8", "surrogateescape")).type
    kind = {h5py.h5l.TYPE_HARD: h5py.HardLink, h5py.h5l.TYPE_SOFT: h5py.SoftLink, h5py.h5l.TYPE_EXTERNAL: h5py.ExternalLink}.get(raw)
    if kind is not None and type(link) is not kind:
        bad.append(["link_in_group", [repr(name), repr(link), str(kind)]])
    if u.isHdf5ExternalLink(g, link) != (kind is h5py.ExternalLink):
        bad.append(["isHdf5ExternalLink", [repr(name), repr(link)]])
    if isinstance(name, str) and u.child_in_group(g, name) != (o is not None):
        bad.append(["child_in_group", [repr(name), o is not None]])
    if o is None:
        return
    is_group, is_ds = isinstance(o, h5py.Group) and not isinstance(o, h5py.File), isinstance(o, h5py.Dataset)
    cls = class_text(o) if is_group else None
    want = dict(isHdf5Group=is_group, isHdf5Dataset=is_ds, isNeXusDataset=is_ds, isHdf5FileObject=False)
    got = {k: getattr(u, k)(o) for k in want}
    if got != want:
        bad.append(["kind of object", [repr(o), got, want]])
    for c in CLASSES[:1] + [cls or "NXx", rng.choice(CLASSES)]:
        if bool(u.isNeXusGroup(o, c)) != (cls is not None and cls == c):
            bad.append(["isNeXusGroup", [repr(o), c, repr(cls)]])
    if u.isHdf5ExternalLink(g, o):
        bad.append(["isHdf5ExternalLink of an object", [repr(o)]])
    v = o.attrs.get("target")
    t = "" if v is None else h5model.one_text(v)
    if t is not None and isinstance(o.name, str):
        if bool(u.isNeXusLink(o)) != (t != "" and t != o.name):
            bad.append(["isNeXusLink", [repr(o), repr(v)]])
    names = [n for n, _ in u.sorted_attributes(o)] if all_readable(o) else None
    if names is not None and names != sorted(h5model.txt(n) for n in o.attrs):
        bad.append(["sorted_attributes", [repr(o), names]])
    for n in list(o.attrs):
        try:
            v = o.attrs[n]
        except Exception:
            continue
        check_value(u, v, bad, seen)
    seen.append([type(o).__name__, kind and kind.__name__, cls, got])


NEAR = ["%s", "/x%s", "/entry%s", "%s/", "%s/x", "/%s", "%s ", " %s", "x%s", "%sx", ".%s", "file.h5#%s", "file.h5%s", "/.%s"]


def near_targets(path, rng):
    """@target of some objects is (nearly) their own address, or that of a parent, in any storage form"""
    with h5py.File(path, "a") as f:
        for g, name, o in objects(f, 25):
            if o is None or not isinstance(o.name, str) or "\0" in o.name or not o.name.isprintable() or rng.random() < 0.4:
                continue
            k, text = rng.randrange(6), o.name
            if k == 0:
                text = rng.choice([text.upper(), text.swapcase(), text.lstrip("/"), text[1:], text.replace("/", "//"), text[:-1], "/", text.rsplit("/", 1)[-1]])
            elif k == 1:
                text = text.rsplit("/", 1)[0]
            elif k > 2:
                text = rng.choice(NEAR) % text
            with contextlib.suppress(Exception):
                o.attrs["target"] = storage(rng, text)


def all_readable(o):
    try:
        for n in o.attrs:
            o.attrs[n]
    except Exception:
        return False
    return True


def case(job):
    from punx import h5tree, utils as u

    rng = random.Random(job["seed"])
    d = os.path.join(job["dir"], "w%d" % job["id"])
    os.makedirs(d)
    out = dict(problems=[], seen=[], files=[])
    bad, seen = out["problems"], out["seen"]
    for i in range(job["n"]):
        path = os.path.join(d, "f%d.h5" % i)
        if rng.random() < 0.6:
            kinds = root_items(rng, path)
            if rng.random() < 0.1:  # many, before and after those
                m = rng.choice([40, 70, 130, 260, 520, 1030])
                with h5py.File(path, "a") as f:
                    for n in range(m):
                        nm = rng.choice(["0_", "0_", "zzz"]) + str(n)
                        if rng.random() < 0.1:
                            f.create_group(nm)
                        elif rng.random() < 0.05:
                            f[nm] = h5py.SoftLink("/nope")
                        else:
                            f[nm] = n
                kinds = kinds + ["many"]
        else:
            h5gen.random_file(rng, path, nxdlref.bundled("v3.3"), depth=3, width=4, cycle=0.05, external=0.1)
            kinds = ["random"]
            if rng.random() < 0.7:
                with h5py.File(path, "a") as f:
                    hostile.inject(f, rng.sample(sorted(hostile.ALL), 6), rng)
        if rng.random() < 0.5:
            near_targets(path, rng)
        want = model_is_nexus(path)
        before = c11.open_files(d)
        got = u.isNeXusFile(path)
        tree = h5tree.Hdf5TreeView(path).isNeXus
        if got is not want or tree is not want:
            bad.append(["isNeXusFile", [kinds, got, tree, want]])
        if c11.open_files(d) != before:
            bad.append(["isNeXusFile: file stays open", kinds])
        out["files"].append([kinds, want])
        with h5py.File(path, "r") as f:
            if not (u.isHdf5FileObject(f) and not u.isHdf5Group(f) and not u.isHdf5Dataset(f)):
                bad.append(["file object", kinds])
            for g, name, o in objects(f):
                check_object(u, g, name, o, rng, bad, seen)
                if len(bad) > 10:
                    return out
            for text in ("", "/", "zz_hidden/entry", "a\0b", "none/none", ".", "..", "./zz_hidden"):
                if u.child_in_group(f, text) != h5model.in_group(f, text):
                    bad.append(["child_in_group", [text, u.child_in_group(f, text)]])
        for _ in range(30):
            check_value(u, random_value(rng), bad, seen)
        junk = os.path.join(d, "junk")
        if u.isNeXusFile(junk + "none") is not None:
            bad.append(["isNeXusFile of missing file", None])
        open(junk, "wb").write(rng.choice([b"", b"text", b"\x89HDF\r\n\x1a\n", open(path, "rb").read()[:700]]))
        for p in (junk, d):
            if p == junk and h5py.is_hdf5(p):
                with contextlib.suppress(OSError), h5py.File(p, "r"):
                    continue
            try:
                bad.append(["isNeXusFile of other file", u.isNeXusFile(p)])
            except OSError:
                pass
        os.remove(path)
    return out


def run(ctx):
    rng = ctx.rng("predicates")
    d = ctx.mkdir("files")
    jobs = [dict(op="call", call="checks.c24:case", dir=d, id=i, seed=rng.getrandbits(48), n=ctx.pick(25, 150)) for i in range(ctx.pick(48, 200))]
    for j, r in zip(jobs, ctx.run_jobs(jobs)):
        if "problems" not in r:
            ctx.violation("predicates failed", dict(result=r))
            continue
        for title, detail in r["problems"]:
            ctx.violation("predicate: " + title, detail)
        for kinds, want in r["files"]:
            ctx.evaluated([sorted(kinds), want] if kinds != ["random"] else None)
            ctx.count("NeXus files" if want else "other files")
        for s in r["seen"]:
            ctx.evaluated(s)
        ctx.sample(r["files"][:5], 2)
