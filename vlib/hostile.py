"""Unusual but legal HDF5 constructs, added to any group of a file.

Each function gets (f, e, d, x): file, a group (entry), a group (data), unique text.
"""

import os

import h5py
import numpy as np

ALL = {}


def c(fn):
    ALL[fn.__name__] = fn
    return fn


def other(f):
    fn = os.path.splitext(f.filename)[0] + "_other.h5"
    if not os.path.exists(fn):
        with h5py.File(fn, "w") as o:
            o["number"] = 1
            g = o.create_group("g")
            g.attrs["NX_class"] = "NXdata"
            g["back"] = h5py.ExternalLink(os.path.basename(f.filename), "/")
            g["self"] = h5py.SoftLink("/g")
            g["dead"] = h5py.SoftLink("/q")
            g["v"] = [1.5, 2]
            g["v"].attrs["signal"] = 1
    return os.path.basename(fn)


@c
def soft_dangling(f, e, d, x): e["s" + x] = h5py.SoftLink("/nope")
@c
def soft_ok_ds(f, e, d, x):
    d["k" + x] = 1
    e["s" + x] = h5py.SoftLink(d.name + "/k" + x)
@c
def soft_ok_grp(f, e, d, x): e.create_group("z" + x)["s" + x] = h5py.SoftLink(d.name)
@c
def soft_cycle(f, e, d, x): d["s" + x] = h5py.SoftLink(e.name)
@c
def soft_self(f, e, d, x): d["s" + x] = h5py.SoftLink(d.name + "/s" + x)
@c
def soft_pingpong(f, e, d, x):
    d["s" + x] = h5py.SoftLink("t" + x)
    d["t" + x] = h5py.SoftLink("s" + x)
@c
def hard_cycle(f, e, d, x): d["s" + x] = f["/"]
@c
def ext_missing(f, e, d, x): e["s" + x] = h5py.ExternalLink("nofile.h5", "/x")
@c
def ext_bad_path(f, e, d, x): e["s" + x] = h5py.ExternalLink(other(f), "/x/y")
@c
def ext_not_hdf5(f, e, d, x):
    fn = os.path.splitext(f.filename)[0] + "_other.txt"
    open(fn, "w").write("no HDF5")
    e["s" + x] = h5py.ExternalLink(os.path.basename(fn), "/x")
@c
def ext_directory(f, e, d, x): e["s" + x] = h5py.ExternalLink(os.path.dirname(os.path.abspath(f.filename)), "/x")
@c
def ext_ok(f, e, d, x):
    e["s" + x] = h5py.ExternalLink(other(f), "/number")
    e["t" + x] = h5py.ExternalLink(other(f), "/g")
@c
def ext_root(f, e, d, x): e["s" + x] = h5py.ExternalLink(other(f), "/")
@c
def ext_self(f, e, d, x): e["s" + x] = h5py.ExternalLink(os.path.basename(f.filename), e.name)
@c
def empty_ds(f, e, d, x): e.create_dataset("s" + x, data=h5py.Empty("f"))
@c
def empty_str_ds(f, e, d, x): e.create_dataset("s" + x, data=h5py.Empty("S3"))
@c
def empty_attr(f, e, d, x): e.attrs["s" + x] = h5py.Empty("f")
@c
def empty_special(f, e, d, x):
    for k in ("default", "signal", "axes", "target", "units"):
        d.attrs[k] = h5py.Empty("S4")
@c
def empty_nxclass(f, e, d, x): d.create_group("g" + x).attrs["NX_class"] = h5py.Empty("S4")
@c
def str2d(f, e, d, x):
    e.create_dataset("s" + x, data=np.array([[b"a", b"b"], [b"c", b"d"]]))
    e.attrs["s" + x] = np.array([[b"a", b"b"], [b"c", b"d"]])
@c
def special2d(f, e, d, x):
    for k in ("default", "signal", "axes", "target"):
        d.attrs[k] = np.array([[b"a", b"b"], [b"c", b"d"]])
@c
def str0(f, e, d, x): e.create_dataset("s" + x, data=np.array([], dtype="S5"))
@c
def vstr0(f, e, d, x): e.create_dataset("s" + x, shape=(0,), dtype=h5py.string_dtype())
@c
def utf8fixed(f, e, d, x):
    e.attrs.create("s" + x, np.array(["µm".encode(), b"b"]))
    e.create_dataset("s" + x, data=np.array(["µm".encode(), b"b"]))
@c
def latin1(f, e, d, x):
    e.attrs.create("s" + x, np.bytes_(b"\xb5m"))
    e.create_dataset("s" + x, data=np.bytes_(b"\xb5m"))
    e.attrs.create("t" + x, b"\xb5m", dtype=h5py.string_dtype("ascii"))
    e.create_dataset("t" + x, data=np.array([b"\xb5m", b"\xff"]))
@c
def latin1_special(f, e, d, x):
    for k in ("default", "signal", "axes", "target"):
        d.attrs.create(k, np.bytes_(b"\xb5m"))
    d.create_group("g" + x).attrs.create("NX_class", np.bytes_(b"NX\xb5m"))
@c
def signal_list(f, e, d, x): d.attrs["signal"] = np.array([b"y"])
@c
def signal_list2(f, e, d, x): d.attrs["signal"] = np.array([b"y", b"z"])
@c
def signal_int(f, e, d, x): d.attrs["signal"] = 1
@c
def signal_path(f, e, d, x): d.attrs["signal"] = "./y"
@c
def signal_up(f, e, d, x): d.attrs["signal"] = "../y"
@c
def signal_abs(f, e, d, x): d.attrs["signal"] = d.name + "/y"
@c
def signal_empty(f, e, d, x): d.attrs["signal"] = ""
@c
def signal_slash(f, e, d, x): d.attrs["signal"] = "/"
@c
def signal_group(f, e, d, x):
    d.create_group("g" + x)
    d.attrs["signal"] = "g" + x
@c
def default_list(f, e, d, x): e.attrs["default"] = np.array([b"data"])
@c
def default_int(f, e, d, x): e.attrs["default"] = 3
@c
def default_dot(f, e, d, x): f.attrs["default"] = "."; e.attrs["default"] = "."
@c
def default_loop(f, e, d, x): f.attrs["default"] = "/"; e.attrs["default"] = "/"
@c
def default_field(f, e, d, x):
    e["y" + x] = 1
    e.attrs["default"] = "y" + x
@c
def default_link(f, e, d, x):
    e["s" + x] = h5py.SoftLink("/nope")
    e.attrs["default"] = "s" + x
    d.attrs["signal"] = "s" + x
@c
def axes_int(f, e, d, x): d.attrs["axes"] = 1
@c
def axes_floats(f, e, d, x): d.attrs["axes"] = [1.5, 2]
@c
def axes_on_ds(f, e, d, x):
    d["y" + x] = [1, 2]
    d["y" + x].attrs["axes"] = "x:y,z"
@c
def axes_on_ds_odd(f, e, d, x):
    for i, v in enumerate([1, "", ":", ",", "[", "::::", [b"a", b"b"], b"\xff", np.array([], dtype="S1"), h5py.Empty("f"), "[a,b]", "a:b:a"]):
        nm = f"y{x}_{i}"
        d[nm] = [1, 2]
        d[nm].attrs["axes"] = v
        d[nm].attrs["signal"] = v
@c
def axes_emptylist(f, e, d, x): d.attrs["axes"] = np.array([], dtype="S1")
@c
def axes_dot(f, e, d, x): d.attrs["axes"] = [".", "y"]
@c
def axes_empty_names(f, e, d, x): d.attrs["axes"] = np.array(["", "/", "..", "a/b"], dtype=h5py.string_dtype())
@c
def target_int(f, e, d, x):
    d["t" + x] = 1
    d["t" + x].attrs["target"] = 1
@c
def target_list(f, e, d, x):
    d["t" + x] = 1
    d["t" + x].attrs["target"] = np.array([b"/entry/data/y"])
@c
def target_list2(f, e, d, x):
    d["t" + x] = 1
    d["t" + x].attrs["target"] = np.array([b"/entry/data/y", b"/x"])
@c
def target_odd(f, e, d, x):
    for i, v in enumerate(["", "/", ".", "//", "/a//b", "a b", " /entry", "@", "/entry@x", h5py.Empty("f"), np.array([], dtype="S1"), 2.5, [1, 2], True]):
        nm = f"t{x}_{i}"
        d[nm] = 1
        d[nm].attrs["target"] = v
        d.create_group("g" + nm).attrs["target"] = v
@c
def target_grp(f, e, d, x): d.attrs["target"] = d.name
@c
def target_other_grp(f, e, d, x):
    g = d.create_group("g" + x)
    g.attrs["target"] = e.name
    g.attrs["NX_class"] = "NXnote"
@c
def target_file(f, e, d, x):
    d["t" + x] = 1
    d["t" + x].attrs["target"] = "napimount://localhost/file.h5#/entry"
@c
def nxclass_ds(f, e, d, x):
    d["t" + x] = 1
    d["t" + x].attrs["NX_class"] = 5
    d["u" + x] = 1
    d["u" + x].attrs["NX_class"] = "NXdata"
@c
def nxclass_root(f, e, d, x): f.attrs["NX_class"] = 5
@c
def nxclass_rootok(f, e, d, x): f.attrs["NX_class"] = "NXroot"
@c
def nxclass_odd(f, e, d, x):
    for i, v in enumerate([np.array([], dtype="S1"), np.array([b"NXdata"]), np.array([b"NXdata", b"NXlog"]), np.array([[b"NXdata"]]), 5, 5.5,
                           True, "", "NX", "NXroot", "NXentry", "NXspecdata", "NXarpes", "NX data", "NXdata ", "NXdata\n", "nxdata", b"NX\xff", "NXé",
                           np.array([1, 2]), h5py.Empty("f"), "NXdata:x", "NX" + "x" * 300]):
        if isinstance(v, str) and v == "NX":
            continue  # (not in the domain, see DESIGN.md)
        g = d.create_group(f"g{x}_{i}")
        g.attrs["NX_class"] = v
        g["y"] = 1
        g["y"].attrs["units"] = "m"
        g.attrs["signal"] = "y"
        h = g.create_group("sub")
        h.attrs["NX_class"] = "NXnote"
@c
def def_values(f, e, d, x):
    for i, v in enumerate(["NXarpes", "NXbeam", [b"NXarpes"], 3, 2.5, "", "nothing", b"\xff", [b"NXsas", b"NXtas"], [[b"NXsas"]], True, [1, 2],
                           h5py.Empty("S4"), np.array([], dtype="S4"), "NXentry", "NXroot", "NXobject", "NXspecdata", "NXarpes\n", "/"]):
        g = f.create_group(f"ent{x}_{i}")
        g.attrs["NX_class"] = "NXentry"
        g["definition"] = v
        s = g.create_group("sub")
        s.attrs["NX_class"] = "NXsubentry"
        s["definition"] = v
@c
def def_group(f, e, d, x):
    g = f.create_group(f"ent{x}")
    g.attrs["NX_class"] = "NXentry"
    g.create_group("definition").attrs["NX_class"] = "NXnote"
    g = f.create_group(f"enu{x}")
    g.attrs["NX_class"] = "NXentry"
    g.create_group("definition")
    g = f.create_group(f"env{x}")
    g.attrs["NX_class"] = "NXentry"
    g["definition"] = h5py.SoftLink("/nope")
    g = f.create_group(f"enw{x}")
    g.attrs["NX_class"] = "NXentry"
    g["definition"] = np.dtype("f8")
@c
def def_fields_odd(f, e, d, x):
    g = f.create_group(f"ent{x}")
    g.attrs["NX_class"] = "NXentry"
    g["definition"] = "NXarpes"
    g["title"] = h5py.Empty("f")
    g["start_time"] = np.zeros((0,))
    g.create_group("instrument").attrs["NX_class"] = 5
    g["sample"] = 1
    g["data"] = np.dtype("f4")
@c
def at_in_names(f, e, d, x):
    g = e.create_group("a@b" + x)
    g.attrs["NX_class"] = "NXdata"
    g.attrs["signal"] = "y"
    g["y"] = [1]
    g["y"].attrs["units"] = "m"
    g = e.create_group(f"b{x}@signal")
    g.attrs["NX_class"] = "NXdata"
    g["k@axes"] = 1
    g["@NX_class"] = 1
    g["@"] = 1
    g.attrs["@"] = 1
    g.attrs["a@b"] = 1
    g.attrs["/"] = 1
    g.attrs["a/b"] = 1
@c
def odd_names(f, e, d, x):
    for nm in ("foo\n", " ", "  x", "%s", "{0}", "\\", "'", '"', "`", "=", "==", "--", "\t", "\x01", "\x7f", "\u2028", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "e\u0301", "\u202eabc", "x" * 300, "*", "[]", "|"):
        try:
            d[nm + x] = 1
        except ValueError:
            pass
        d.attrs[nm] = 1
@c
def name_dotdot(f, e, d, x):
    d.create_dataset(".." + x, data=1)
    d.create_dataset("..." + x, data=1)
@c
def compound(f, e, d, x):
    d["c" + x] = np.zeros(3, dtype=[("a", "i4"), ("b", "f8")])
    d["c0" + x] = np.zeros((), dtype=[("a", "i4")])
    d["c1" + x] = np.zeros(1, dtype=[("a", "i4"), ("s", "S3")])
    d.create_dataset("c2" + x, (2, 2), dtype=[("a", "i4"), ("s", h5py.string_dtype())])
    d.attrs["c" + x] = np.zeros(2, dtype=[("a", "i4"), ("b", "f8")])
@c
def array_type(f, e, d, x):
    d.create_dataset("c" + x, data=np.zeros(3, dtype=[("a", "i4", (2, 2))]))
    d.create_dataset("d" + x, (3,), dtype=np.dtype("(2,)i4"))
@c
def refs(f, e, d, x):
    d["y" + x] = [1, 2, 3]
    d.create_dataset("ref" + x, data=[e.ref, d.ref], dtype=h5py.ref_dtype)
    d.create_dataset("ref1" + x, data=e.ref, dtype=h5py.ref_dtype)
    d.attrs["r" + x] = e.ref
    d.create_dataset("rr" + x, data=d["y" + x].regionref[0:2], dtype=h5py.regionref_dtype)
@c
def null_refs(f, e, d, x): d.create_dataset("ref" + x, (2,), dtype=h5py.ref_dtype)
@c
def ref_special(f, e, d, x):
    for k in ("default", "signal", "axes", "target"):
        d.attrs[k] = e.ref
@c
def ranks(f, e, d, x):
    for i, s in enumerate([(2,) * 5, (2,) * 4, (7, 6, 7), (0, 3), (3, 0), (1, 1), (1, 1, 1), (2, 0, 2), (1,) * 8, (300, 2), (1, 50)]):
        d[f"c{x}_{i}"] = np.zeros(s)
    d["big" + x] = np.arange(100000)
@c
def odd_numbers(f, e, d, x):
    d["c" + x] = np.array([True, False])
    d.attrs["b" + x] = True
    d["cc" + x] = np.array([1 + 2j])
    d["cs" + x] = 1 + 2j
    d["f16" + x] = np.zeros(3, "f2")
    d["ld" + x] = np.zeros(3, "g")
    d["nan" + x] = [np.nan, np.inf, -np.inf]
    d["u8" + x] = np.array([2 ** 64 - 1], "u8")
    d["u8s" + x] = np.uint64(2 ** 64 - 1)
@c
def enum(f, e, d, x):
    dt = h5py.enum_dtype({"RED": 0, "GREEN": 1}, basetype="i")
    d.create_dataset("en" + x, data=[0, 1, 5], dtype=dt)
    d.attrs.create("en" + x, 1, dtype=dt)
@c
def named_type(f, e, d, x):
    d["t" + x] = np.dtype("f8")
    d["t" + x].attrs["units"] = "m"
    d["ts" + x] = np.dtype("S10")
    d["tc" + x] = np.dtype([("a", "i4")])
    e.attrs.create("typed" + x, 1.0, dtype=d["t" + x])
@c
def named_type_special(f, e, d, x):
    d["t" + x] = np.dtype("f8")
    d["t" + x].attrs["signal"] = 1
    d["t" + x].attrs["target"] = "/entry"
    d["t" + x].attrs["axes"] = "x"
    d.attrs["signal"] = "t" + x
    d.attrs["axes"] = ["t" + x]
    e.attrs["default"] = "t" + x
@c
def vlen(f, e, d, x):
    ds = d.create_dataset("v" + x, (2,), dtype=h5py.vlen_dtype("i4"))
    ds[0] = [1, 2]
    d.create_dataset("vs" + x, (), dtype=h5py.vlen_dtype("i4"))
    d.create_dataset("vf" + x, (2, 2), dtype=h5py.vlen_dtype("f8"))
@c
def opaque(f, e, d, x):
    d["o" + x] = np.array([b"\x00ab"], dtype="V3")
    d["o2" + x] = np.array([b"\x00ab", b"abc"], dtype="V3")
    d.attrs["o" + x] = np.array([b"\x00ab"], dtype="V3")
@c
def datetime64(f, e, d, x): d.create_dataset("o" + x, data=np.array(["2020-01-01"], dtype="M8[s]").astype(h5py.opaque_dtype("M8[s]")))
@c
def non_nexus(f, e, d, x):
    g = e.create_group("x" + x)
    g.attrs["foo"] = "1"
    g.attrs["default"] = "y"
    g.attrs["signal"] = "y"
    g.attrs["axes"] = ["y"]
    h = g.create_group("y")
    h.attrs["NX_class"] = "NXdata"
    h["z"] = 1
    h["z"].attrs["u"] = "m"
    h["z"].attrs["target"] = "/nope"
    h["z"].attrs["signal"] = 1
    g["q"] = 1
    g["dead"] = h5py.SoftLink("/nope")
    g["loop"] = h5py.SoftLink(g.name)
@c
def soft_signal(f, e, d, x):
    d["y" + x] = [1]
    d["q" + x] = h5py.SoftLink(d.name + "/y" + x)
    d.attrs["signal"] = "q" + x
@c
def hard_alias_grp(f, e, d, x): f["alias" + x] = d
@c
def bad_name_bytes(f, e, d, x):
    e.create_dataset(b"\xff\xfe" + x.encode(), data=1)
    e.attrs.create(b"\xff\xfe" + x.encode(), 1)
    d.id.links.create_soft(b"\xff2" + x.encode(), b"/nowhere")
    d.id.links.create_soft(b"\xff3" + x.encode(), e.name.encode())
    d.id.links.create_external(b"\xff4" + x.encode(), b"nofile.h5", b"/x")
    q = d.create_group(b"\xff5" + x.encode())
    q["x"] = 3
    q.attrs["NX_class"] = "NXnote"
    q.attrs.create(b"\xff", "text")
@c
def bad_link_bytes(f, e, d, x):
    d.id.links.create_soft(b"sb" + x.encode(), b"/\xff\xfe")
    d.id.links.create_external(b"eb" + x.encode(), b"\xff.h5", b"/\xfe")
@c
def nested_entries(f, e, d, x):
    for i, cls in enumerate(["NXsubentry", "NXentry"]):
        s = e.create_group(f"sub{x}_{i}")
        s.attrs["NX_class"] = cls
        s["definition"] = "NXsas"
        t = s.create_group("again")
        t.attrs["NX_class"] = cls
        t["definition"] = "NXtas"
@c
def signal_values(f, e, d, x):
    for i, v in enumerate([np.bytes_(b"1"), "1", [1], "²", "1.0", 1.0, -1, "", " 1", True, np.array(["1"], dtype=h5py.string_dtype()), np.uint8(1), 2 ** 40, "x" * 5000, b"\xff", [1, 2], np.array([], dtype="i4"), h5py.Empty("i4"), np.nan]):
        d[f"y{x}_{i}"] = [1, 2]
        d[f"y{x}_{i}"].attrs["signal"] = v
@c
def odd_texts(f, e, d, x):
    for i, v in enumerate(["a\tb\x01", "l1\nl2", "\r", "\u2028", "%s %d", "{x}", "😀", "\x1b[31m", "=====", "a" * 70000, "'\"", "\\n"]):
        try:
            d.attrs[f"note{x}{i}"] = v
        except (RuntimeError, ValueError, OSError):
            pass
        d[f"txt{x}{i}"] = v
        d[f"tls{x}{i}"] = [v, v]
@c
def nul_text(f, e, d, x):
    d.attrs.create("nul" + x, np.array(b"ab\0cd", dtype="S8"))
    d["nul" + x] = np.array([b"ab\0cd", b""], dtype="S8")
@c
def empty_strings(f, e, d, x):
    d["es" + x] = ""
    d["el" + x] = ["", ""]
    d.attrs["es" + x] = ""
    d.attrs["el" + x] = ["", ""]
    e.attrs["target"] = ""
@c
def ext_data_missing(f, e, d, x):
    d.create_dataset("ext" + x, (10,), "f4", external=[("missing.bin", 0, 40)])
    d.create_dataset("ext2" + x, (2, 5), "f4", external=[("missing.bin", 0, 40)])
    d.create_dataset("ext3" + x, (2, 5, 2), "f4", external=[("missing.bin", 0, 80)])
    d.create_dataset("exts" + x, (), "f4", external=[("missing.bin", 0, 4)])
@c
def vds_missing(f, e, d, x):
    lay = h5py.VirtualLayout((4,), "i4")
    lay[0:4] = h5py.VirtualSource("nonef.h5", "d", (4,))
    d.create_virtual_dataset("v" + x, lay)
@c
def unallocated(f, e, d, x):
    d.create_dataset("u" + x, (5, 5), "f8", chunks=(2, 2))
    d.create_dataset("w" + x, (0,), "f8", maxshape=(None,), chunks=(4,))
    d.create_dataset("su" + x, (3,), dtype=h5py.string_dtype())
@c
def deep(f, e, d, x):
    g = d
    for i in range(60):
        g = g.create_group("deep" + x if i == 0 else "n")
        g.attrs["NX_class"] = "NXcollection"
    g["leaf"] = 1
@c
def wide(f, e, d, x):
    g = d.create_group("wide" + x)
    g.attrs["NX_class"] = "NXcollection"
    for i in range(300):
        g.create_group(f"k{i}").attrs["NX_class"] = "NXnote"
    for i in range(200):
        g.attrs[f"a{i}"] = i
@c
def scales(f, e, d, x):
    d["sc" + x] = [1, 2]
    d["sd" + x] = [1, 2]
    d["sc" + x].make_scale("x")
    d["sd" + x].dims[0].attach_scale(d["sc" + x])
@c
def mount_names(f, e, d, x): d.create_group("." + x + ".").create_group("a.b")["c/d"] = 1
@c
def lossy_filters(f, e, d, x): d.create_dataset("so" + x, data=np.arange(100.0), scaleoffset=2)
@c
def root_odd(f, e, d, x):
    f.attrs["file_name"] = 3
    f.attrs["target"] = "/entry"
    f.attrs["signal"] = "entry"
    f.attrs["axes"] = ["entry"]
    f["fielda" + x] = 1
    f["fielda" + x].attrs["signal"] = 1
    f.create_group("plain" + x)
    f.create_group("datx" + x).attrs["NX_class"] = "NXdata"
@c
def nx_objects_as_fields(f, e, d, x):
    for nm in ("instrument", "sample", "user", "process", "monitor", "collection"):
        if nm not in e:
            e[nm] = 1
    for nm in ("title", "start_time", "program_name", "x", "z"):
        if nm not in d:
            d.create_group(nm)
    for nm in ("title", "start_time"):
        if nm not in e:
            e[nm] = np.dtype("i4")
@c
def format_names(f, e, d, x):
    for t in ("%s", "%d", "100%", "{}", "{0}", "{name}", "%(x)s", "\\n", "$x", "`x`", "|x|", "*x*", "x_", "<x>", "&x;", "#x"):
        g = e.create_group(t + x)
        g.attrs["NX_class"] = "NXdata"
        g.attrs[t] = t
        g[t] = t
        g[t].attrs[t] = [t, t]
        g["soft" + t] = h5py.SoftLink(t)
        g["none" + t] = h5py.SoftLink("/" + t + "/none")
        g["out" + t] = h5py.ExternalLink(t, t)
        g.attrs["signal"] = t
        q = e.create_group("c" + t + x)
        q.attrs["NX_class"] = "NX" + t
        q.attrs["target"] = "/" + t
        q.attrs["axes"] = t
        q.attrs["default"] = t
        e.create_group("p" + t + x).attrs["NX_class"] = t


EXTREME = {}  # only alone: cost much time, or would exhaust the memory of code which reads all


def x(fn):
    EXTREME[fn.__name__] = fn
    return fn


@x
def nested_deeply(f, e, d):
    g = e
    for i in range(1100):
        g = g.create_group("g")
        g.attrs["NX_class"] = "NXcollection"
    g["last"] = 1
    return [g.name, g.name + "/last"]
@x
def nested_deeply_plain(f, e, d):
    g = e
    for i in range(1500):
        g = g.create_group("g")
    g["last"] = 1
    return []
@x
def huge_text(f, e, d):
    d.create_dataset("t", (10 ** 15,), "S10", chunks=(1000,))
    d.create_dataset("u", (10 ** 8, 10 ** 8), "S10", chunks=(10, 100))
    return [d.name + "/t", d.name + "/u"]
@x
def huge_vlen(f, e, d):
    d.create_dataset("t", (10 ** 15,), h5py.string_dtype(), chunks=(1000,))
    return [d.name + "/t"]
@x
def huge_numbers(f, e, d):
    d.create_dataset("a", (10 ** 16,), "f8", chunks=(1000,))
    d.create_dataset("b", (10 ** 8, 10 ** 8), "i4", chunks=(10, 100))
    d.create_dataset("c", (10 ** 5, 10 ** 5, 10 ** 6), "f4", chunks=(10, 10, 10))
    d.create_dataset("d", (10 ** 4, 10 ** 4, 10 ** 4, 10 ** 4), "u1", chunks=(10, 10, 10, 10))
    d.attrs["signal"] = "d"
    d.attrs["axes"] = ["a", "b", "c", "a"]
    return [d.name + "/" + k for k in "abcd"]
@x
def huge_other(f, e, d):
    d.create_dataset("a", (10 ** 16,), np.dtype([("p", "f8"), ("q", "S10")]), chunks=(1000,))
    d.create_dataset("b", (10 ** 16,), bool, chunks=(1000,))
    d.create_dataset("c", (10 ** 16,), h5py.ref_dtype, chunks=(1000,))
    d.create_dataset("d", (10 ** 16,), h5py.vlen_dtype("f8"), chunks=(1000,))
    d.create_dataset("e", (10 ** 16,), "c16", chunks=(1000,))
    return [d.name + "/" + k for k in "abcde"]
@x
def huge_definition(f, e, d):
    e.create_dataset("definition", (10 ** 15,), "S10", chunks=(1000,))
    return [e.name + "/definition"]
@x
def huge_definition_vlen(f, e, d):
    e.create_dataset("definition", (10 ** 15,), h5py.string_dtype(), chunks=(1000,))
    e.create_dataset("title", (10 ** 15,), h5py.string_dtype(), chunks=(1000,))
    return [e.name + "/definition"]
@x
def huge_enumeration(f, e, d):
    e["definition"] = "NXarchive"
    s = e.create_group("sample")
    s.attrs["NX_class"] = "NXsample"
    for nm in ("role", "type", "situation"):
        s.create_dataset(nm, (10 ** 15,), "S10", chunks=(1000,))
    i = e.create_group("instrument")
    i.attrs["NX_class"] = "NXinstrument"
    q = i.create_group("source")
    q.attrs["NX_class"] = "NXsource"
    q.create_dataset("probe", (10 ** 15,), h5py.string_dtype(), chunks=(1000,))
    return [s.name + "/role", q.name + "/probe"]
@x
def many_members(f, e, d):
    for i in range(2500):
        d[f"v{i}"] = i
    return [d.name + "/v2499"]
@x
def many_attributes(f, e, d):
    for i in range(1200):
        d.attrs[f"a{i}"] = i
        d["y"].attrs[f"a{i}"] = "text"
    return [d.name + "@a1199", d.name + "/y@a1199"]
@x
def long_text(f, e, d):
    d["t"] = "x" * 10 ** 6
    d["u"] = np.array([b"y" * 10 ** 6, b"z"])
    d.attrs["a"] = "z" * 60000
    d.attrs["signal"] = "s" * 60000
    return [d.name + "/t", d.name + "@a"]
@x
def long_names(f, e, d):
    g = e
    for i in range(20):
        g = g.create_group("g" * 3000)
    g["n" * 60000] = 1
    return []
@x
def many_links(f, e, d):
    for i in range(300):
        d[f"s{i}"] = h5py.SoftLink(f"s{i + 1}")
        e[f"k{i}"] = d["y"]
    d["s300"] = 1
    return [e.name + "/k299"]


def base(f):
    f.attrs["default"] = "entry"
    e = f.create_group("entry")
    e.attrs["NX_class"] = "NXentry"
    e.attrs["default"] = "data"
    d = e.create_group("data")
    d.attrs["NX_class"] = "NXdata"
    d.attrs["signal"] = "y"
    d["y"] = [1, 2, 3]
    return e, d


def inject(f, names, rng):
    """add constructs to groups of the file, return names of those which were added"""
    groups = []
    seen = set()

    def walk(g, depth):
        key = h5py.h5o.get_info(g.id).addr
        if key in seen or len(groups) > 50:
            return
        seen.add(key)
        groups.append(g)
        for k in list(g):
            try:
                v = g[k]
            except Exception:
                continue
            if isinstance(v, h5py.Group) and depth < 6 and v.file.filename == f.filename:
                walk(v, depth + 1)

    walk(f["/"], 0)
    done = []
    for i, nm in enumerate(names):
        e, d = rng.choice(groups), rng.choice(groups)
        try:
            ALL[nm](f, e, d, "_%d" % i)
            done.append(nm)
        except Exception:
            done.append(nm + " (partly)")
    return done
