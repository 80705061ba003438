"""Reference model: which findings the validation of a file must have.

Written from the documentation of punx and NeXus, on top of h5model & nxdlref.
Every expected finding is (address, test, status, tag, slice) where ``tag`` is
the first word(s) of the comment when it carries the verdict (defined, found, ...).
"""

import re

import h5py
import numpy

from . import h5model
from .h5model import NONNX


class Expected:
    def __init__(self):
        self.rows = []
        self.dontcare = set()  # addresses which are outside of the stated domain
        self.notes = {}

    def add(self, slc, addr, test, status, tag=None):
        self.rows.append((slc, addr, test, status, tag))


def addr_join(addr, name):
    return addr.rstrip("/") + "/" + name


def expect(root, fs):
    """findings for the file with model ``root`` by NXDL file set ``fs``"""
    ex = Expected()
    nodes = list(root.walk())
    for n in nodes:
        if "@" in n.addr:  # outside of the stated domain
            ex.dontcare.add(n.addr)
        for name, kind in n.links:
            ex.add("link", n.addr, f"link '{name}'", "WARN" if kind == "broken" else "NOTE")
        if n.parent is not None:
            names(ex, fs, n)
        for a in n.attrs.values():
            attribute(ex, fs, root, n, a)
        if n.kind in ("group", "root"):
            group(ex, fs, root, n)
    for n in nodes:
        if n.cp in ("/NXentry/definition", "/NXentry/NXsubentry/definition"):
            application(ex, fs, n.parent)
    default_plot(ex, fs, root, nodes)
    return ex


# ---- names -------------------------------------------------------------


def names(ex, fs, n):
    s = fs.name_status(n.name)
    if "NXcollection" in n.cp:
        s = "WARN"
    ex.add("name", n.addr, "validItemName", s or "ERROR")


def is_link(n):
    """is ``n`` a NeXus link: has @target which is not its own address"""
    a = n.attrs.get("target")
    if a is None:
        return False
    if a.one is None:
        return None  # unspecified
    return a.one != n.h5.name


# ---- attributes --------------------------------------------------------


def attribute(ex, fs, root, n, a):
    if a.addr is None:
        return
    if "@" in a.name:
        ex.dontcare.add(a.addr)
        return
    # name
    if a.name == "NX_class":
        if a.one is None:
            ex.dontcare.add(a.addr)
            return
        ok = fs.nx_class_pattern_ok(a.one)
        ex.add("name", a.addr, "validItemName", "OK" if ok else "ERROR")
    else:
        link = is_link(n)
        if link is None:
            for b in n.attrs.values():
                ex.dontcare.add(b.addr)
            return
        if not link:
            s = fs.name_status(a.name)
            ex.add("name", a.addr, "validItemName", "ERROR" if s is None else "OK")
    # value
    T = "attribute value"
    if a.name == "NX_class":
        if fs.as_base_class(a.one):
            ex.add("nxclass", a.addr, T, "OK")
        else:
            ex.add("nxclass", a.addr, T, "ERROR")
    elif a.name == "target":
        target(ex, fs, root, n, a)
    elif a.name == "signal":
        signal(ex, fs, n, a)
    elif a.name == "axes":
        axes(ex, fs, n, a)
    else:
        ex.add("attr", a.addr, T, "TODO")


def target(ex, fs, root, n, a):
    T = "attribute value"
    t = a.one
    if t is None:
        ex.dontcare.add(a.addr)
        return
    ok = t.startswith("/")
    if ok:
        addr = ""
        for p in t[1:].split("/"):
            addr += "/" + p
            if fs.name_status(p) is None or addr not in root.h5:
                ok = False
                break
    ex.add("pointer", a.addr, T, "OK" if ok else "ERROR")


def signal(ex, fs, n, a):
    T = "attribute value"
    if n.kind == "dataset":
        t = a.one
        if t is None:
            v = a.value
            if isinstance(v, numpy.ndarray) and v.size == 1:
                v = v.ravel()[0]
            if not isinstance(v, (int, numpy.integer)):
                ex.dontcare.add(a.addr)
                return
            t = str(int(v))
        ok = re.fullmatch(r"0*1", t) is not None
        ex.add("pointer", a.addr, T, "OK" if ok else "NOTE")
    elif n.kind == "group":
        t = a.one
        if t is None:
            ex.dontcare.add(a.addr)
            return
        ex.add("pointer", a.addr, f"valid name @signal={t}", fs.name_status(t) or "ERROR")
        found = h5model.in_group(n.h5, t)
        ex.add("pointer", a.addr, T, "OK" if found else "ERROR", "found" if found else "not found")
    else:
        ex.add("attr", a.addr, T, "TODO")


def axes(ex, fs, n, a):
    t = a.text
    if t is None:
        ex.dontcare.add(a.addr)
        return
    where = n.h5
    if n.kind == "dataset":
        if not isinstance(t, str):
            if len(t) != 1:
                ex.dontcare.add(a.addr)
                return
            t = t[0]
        t = re.split("[:,]", t.strip("[] "))
        where = n.parent.h5
    elif isinstance(t, str):
        t = [t]
    for x in t:
        ex.add("pointer", a.addr, f"valid name @axes['{x}']", fs.name_status(x) or "ERROR")
        ex.add("pointer", a.addr, f"axes['{x}'] exists", "OK" if h5model.in_group(where, x) else "ERROR")
    ex.add("attr", a.addr, "attribute value", "TODO")


# ---- groups ------------------------------------------------------------


def group(ex, fs, root, n):
    if n.cp == NONNX:
        ex.add("nxclass", n.addr, "NeXus_group", "OK")
        return
    base = fs.classes.get(n.nx_class)
    ex.add("nxclass", n.addr, "known NXDL", "ERROR" if base is None else "OK")
    if base is None:
        ex.add("nxclass", n.addr, "NeXus base class", "ERROR")
        return
    ex.add("nxclass", n.addr, "NeXus base class", "OK" if fs.as_base_class(n.nx_class) else "ERROR")
    ex.add("nxclass", n.addr, "NeXus base class", "TODO")

    # attributes of the group
    for a in n.attrs.values():
        if "@" in a.name:
            continue
        known = a.name in base.attributes
        ex.add("member", a.addr, "known attribute", "OK",
               "known" if known or a.name == "NX_class" else "unknown")
        if not known:
            continue
        enum = base.attributes[a.name]
        if a.one is None and (enum or a.name in ("default", "signal", "target")):
            ex.dontcare.add(a.addr)
            continue
        if enum:
            ok = a.one in enum
            ex.add("member", a.addr, "attribute value enumeration", "OK" if ok else "ERROR",
                   "found" if ok else "not found")
        if a.name == "default" and n.cp in ("", "/NXentry", "/NXentry/NXsubentry"):
            found = h5model.in_group(n.h5, a.one)
            ex.add("pointer", a.addr, "value of @default", "OK" if found else "ERROR")
        elif a.name == "signal":
            found = h5model.in_group(n.h5, a.one)
            ex.add("pointer", a.addr, "value of @signal", "OK" if found else "ERROR")
        elif a.name == "target":
            found = a.one.startswith("/") and h5model.in_group(root.h5, a.one)
            ex.add("pointer", a.addr, "value of @target", "OK" if found else "ERROR")
        elif a.name != "axes":
            ex.add("attr", a.addr, f"value of @{a.name}", "TODO")

    # what the file has
    for c in n.children:
        if c.kind == "dataset":
            ex.add("member", c.addr, "field in base class", "OK",
                   "defined" if c.name in base.fields else "not defined")
        elif c.kind == "group":
            ex.add("member", c.addr, "group in base class", "OK",
                   "defined" if c.name in base.groups else "not defined")
        else:
            ex.dontcare.add(c.addr)

    # what the base class has
    for f in base.fields:
        found = f in n.h5
        ex.add("member", n.addr, "NXDL field in data file", "OK" if found else "OPTIONAL",
               ("found: " if found else "not found: ") + addr_join(n.addr, f))
    for g in base.groups:
        found = g in n.h5
        ex.add("member", n.addr, "NXDL group in data file", "OK" if found else "OPTIONAL",
               ("found:  in " if found else "not found:  in ") + n.addr + "/" + g)


# ---- application definitions -------------------------------------------


def first_text(dset):
    """first value of the dataset, as text; None if not specified"""
    if dset.shape is None or dset.size == 0:
        return None
    try:
        v = dset[()]
    except OSError:
        return None
    if isinstance(v, numpy.ndarray):
        v = v.ravel()[0]
    if isinstance(v, (str, bytes)):
        return h5model.txt(v)
    if isinstance(v, (int, numpy.integer)) and not isinstance(v, (bool, numpy.bool_)):
        return str(int(v))
    return None


def application(ex, fs, n):
    d = n.h5.get("definition")
    if not isinstance(d, h5py.Dataset):
        return
    name = first_text(d)
    if name is None:
        ex.dontcare.add(n.addr)
        return
    ad = fs.classes.get(name)
    ex.add("appdef", n.addr, "known NXDL", "ERROR" if ad is None else "OK")
    if ad is None:
        return
    T = "NeXus application definition"
    ex.add("appdef", n.addr, T, "ERROR" if ad.category == "base_classes" else "OK")
    ex.add("appdef", n.addr, T, "TODO")
    entry = fs.entry_of(name)
    if entry is None:
        return
    for f, spec in entry.fields.items():
        obj = None
        if h5model.in_group(n.h5, f):
            obj = n.h5[f]
        addr = addr_join(n.addr, f)
        if not isinstance(obj, h5py.Dataset):
            ex.add("appdef", addr, "NXDL field", "OPTIONAL" if spec.optional else "ERROR")
            continue
        ex.add("appdef", addr, "NXDL field", "OK")
        if spec.enumerations:
            t = first_text(obj)
            if t is None:
                ex.dontcare.add(addr)
                continue
            ex.add("appdef", addr, "NXDL field enumerations", "OK" if t in spec.enumerations else "ERROR")


# ---- default plot ------------------------------------------------------


def default_plot(ex, fs, root, nodes):
    T = "NeXus default plot"
    ex.notes["plot"] = None  # accepted addresses, when a default plot is found
    sure = True
    v3, niac, broken = [], [], False
    for n in nodes:
        if n.cp == "/NXentry/NXdata" and "signal" in n.attrs and n.kind == "group":
            s = n.attr1("signal")
            if s is None:
                sure = False
                continue
            if not h5model.in_group(n.h5, s):
                broken = True
                continue
            obj = n.h5[s]
            if isinstance(obj, h5py.Dataset):
                v3.append(addr_join(n.addr, s))
                entry = n.parent
                t1 = root.attr1("default")
                t2 = entry.attr1("default")
                if (t1 is not None and t2 is not None
                        and "/" + t1 == entry.addr and addr_join(entry.addr, t2) == n.addr):
                    niac.append((n.addr + "@signal", addr_join(n.addr, s)))
    v2 = {}
    for n in nodes:
        if n.kind == "dataset" and n.cp != NONNX and "signal" in n.attrs:
            a = n.attrs["signal"]
            t = a.one
            if t is None:
                v = a.value
                if isinstance(v, numpy.ndarray) and v.size == 1:
                    v = v.ravel()[0]
                if not isinstance(v, (int, numpy.integer)):
                    sure = False
                    continue
                t = str(int(v))
            if t == "1":
                v2.setdefault(n.parent.addr, []).append(n.addr)
    if not sure:
        ex.notes["plot"] = "unspecified"
        return
    if v3 and not broken:
        ex.add("plot", "/", T, "OK", "v3")
        ex.notes["plot"] = list(niac[0]) if len(niac) == 1 else v3
        return
    single = [k for k, v in v2.items() if len(v) == 1]
    if single:
        ex.add("plot", "/", T, "OK", "v2")
        ex.notes["plot"] = [v2[k][0] for k in single]
        return
    entries = [n for n in nodes if n.nx_class == "NXentry"]
    d = fs.classes["NXentry"].groups.get("data") if "NXentry" in fs.classes else None
    required = d is not None and int(d.xml.get("minOccurs", 0)) > 0
    ex.add("plot", "/", T, "ERROR" if not entries or required else "NOTE")


# ---- comparison --------------------------------------------------------

SLICE_TESTS = {
    # tests (exact) which belong to each slice, when looking at the observed findings
    "nxclass": {"NeXus_group", "known NXDL", "NeXus base class"},
    "member": {"known attribute", "attribute value enumeration", "field in base class",
               "group in base class", "NXDL field in data file", "NXDL group in data file"},
    "plot": {"NeXus default plot"},
    "appdef": {"NXDL field", "NXDL field enumerations", "NeXus application definition"},
}


def slice_of(row, ex, entry_addrs=()):
    """slice of an observed finding (address, test, status, comment)"""
    addr, test, status, comment = row
    if test == "validItemName":
        return "name"
    if test == "attribute value":
        if addr.endswith("@NX_class"):
            return "nxclass"
        if addr.endswith("@target"):
            return "pointer"
        if addr.endswith("@signal"):
            return "attr" if status == "TODO" else "pointer"
        return "attr"
    if test.startswith("link '"):
        return "link"
    if test.startswith(("valid name @signal=", "valid name @axes[", "axes['")) or test in (
            "value of @default", "value of @signal", "value of @target"):
        if status == "TODO":
            return "attr"
        return "pointer"
    if test.startswith("value of @"):
        return "attr"
    for s, tests in SLICE_TESTS.items():
        if test in tests:
            return s
    return None


def tag_of(test, comment):
    if test in ("NXDL field in data file", "NXDL group in data file"):
        return comment
    if test in ("known attribute", "attribute value enumeration", "field in base class", "group in base class"):
        return comment.split(":")[0]
    return None


def compare(ex, observed, slices):
    """Return (missing, unexpected, compared) of the findings in ``slices``.

    In slices nxclass and appdef, "known NXDL" of one address may be from both:
    both slices are compared together on that test.
    """
    want, got = {}, {}
    # "known NXDL" is used by the @NX_class and by the application definition checks
    both = {"nxclass", "appdef"} & set(slices)
    sl = set(slices) | ({"nxclass", "appdef"} if both else set())

    def selected(slc, test):
        if slc in slices:
            return True
        return bool(both) and test == "known NXDL" and slc in sl

    for slc, addr, test, status, tag in ex.rows:
        if addr in ex.dontcare or not selected(slc, test):
            continue
        if test not in SLICE_TESTS["member"]:
            tag = None
        k = (addr, test, status, tag)
        want[k] = want.get(k, 0) + 1
    for row in observed:
        addr, test, status, comment = row
        slc = slice_of(row, ex)
        if slc is None or addr in ex.dontcare or not selected(slc, test):
            continue
        tag = tag_of(test, comment) if test in SLICE_TESTS["member"] else None
        k = (addr, test, status, tag)
        got[k] = got.get(k, 0) + 1
    missing = [list(k) + [n - got.get(k, 0)] for k, n in want.items() if got.get(k, 0) < n]
    unexpected = [list(k) + [n - want.get(k, 0)] for k, n in got.items() if want.get(k, 0) < n]
    return missing, unexpected, sum(want.values())
