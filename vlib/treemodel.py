"""Oracle for the tree report: independent walk of the file, matched against the lines of the report.

Each element of the report is one item (it may have line breaks).
"""

import re

import h5py
import numpy

from . import h5model
from .h5model import txt


def one(value):
    t = h5model.as_text(value)
    if isinstance(t, list):
        t = t[0] if len(t) == 1 else None
    return t


def classtext(group):
    """(known, text) of NX_class shown after the name of the group"""
    if "NX_class" not in group.attrs:
        return True, ""
    try:
        v = group.attrs["NX_class"]
    except Exception:
        return False, None
    t = h5model.as_text(v)
    if isinstance(t, list):
        t = t[0]
    if t is None:
        return isinstance(v, (int, float, numpy.number)), ""
    return True, t


def is_nexus(f):
    for name in f:
        try:
            g = f[name]
        except (KeyError, OSError, RuntimeError):
            continue
        if isinstance(g, h5py.Group):
            known, t = classtext(g)
            if t == "NXentry":
                return True
    return False


def getlink(group, name):
    if isinstance(name, bytes):
        info = group.id.links.get_info(name)
        if info.type == h5py.h5l.TYPE_SOFT:
            return h5py.SoftLink(txt(group.id.links.get_val(name)))
        if info.type == h5py.h5l.TYPE_EXTERNAL:
            return h5py.ExternalLink(*map(txt, group.id.links.get_val(name)))
        return h5py.HardLink()
    return group.get(name, getlink=True)


TOKEN = re.compile(r"\[|\]|'?\.\.\.'?|[^\[\],\s']+")


def nested(text):
    """parse a shown array to nested lists of tokens"""
    stack, top = [], None
    for t in TOKEN.findall(text):
        if t == "[":
            stack.append([])
        elif t == "]":
            done = stack.pop()
            if stack:
                stack[-1].append(done)
            else:
                if top is not None:
                    raise ValueError("two arrays")
                top = done
        elif stack:
            stack[-1].append(t.strip("'"))
        else:
            raise ValueError("text outside of array: " + t)
    if stack or top is None:
        raise ValueError("not an array")
    return top


def same_number(token, v, tol=0.0):
    v = numpy.asarray(v)[()]
    try:
        if v.dtype.kind == "b":
            return token == str(bool(v))
        if v.dtype.kind in "iu":
            return int(token) == int(v)
        if v.dtype.kind == "f":
            w = v.dtype.type(token)
            if numpy.isnan(v):
                return bool(numpy.isnan(w))
            return bool(w == v) or abs(float(w) - float(v)) <= tol * abs(float(v))
        if v.dtype.kind == "c":
            return complex(token) == complex(v) or abs(complex(token) - complex(v)) <= 1e-6 * abs(complex(v))
    except (ValueError, TypeError):
        return False
    return False


def shown(n, m):
    """indices of the items to be shown; None for '...'"""
    if n <= m:
        return list(range(n))
    return list(range(m - 2)) + [None, n - 1]


def same_array(tree, arr, m):
    if not isinstance(tree, list):
        return f"no array: {tree}"
    idx = shown(arr.shape[0], m)
    if len(tree) != len(idx):
        return f"{len(tree)} items shown, {len(idx)} expected"
    for t, i in zip(tree, idx):
        if i is None:
            if t != "...":
                return f"no '...' but {t}"
        elif arr.ndim == 1:
            if not isinstance(t, str) or not same_number(t, arr[i]):
                return f"item {i}: shown {t}, value {arr[i]!r}"
        else:
            p = same_array(t, arr[i], m)
            if p:
                return p
    return None


def same_attribute_array(tree, v, largest, big):
    """problem or None; numpy shows the first and last three of each dimension of arrays with more than 1000 items (big)"""
    if not isinstance(tree, list):
        return f"no array: {tree}"
    idx = range(len(v))
    if big and len(v) > 6:
        if len(tree) != 7 or tree[3] != "...":
            return "not abridged"
        tree, idx = tree[:3] + tree[4:], [0, 1, 2, -3, -2, -1]
    if len(tree) != len(idx):
        return f"{len(tree)} items shown, {len(idx)} expected"
    for a, i in zip(tree, idx):
        b = v[i]
        if v.ndim > 1:
            p = same_attribute_array(a, b, largest, big)
            if p:
                return p
        elif not isinstance(a, str) or not (same_number(a, b, 1e-5) or v.dtype.kind == "f" and abs(b) < 1e-5 * largest):
            return f"shown {a}, value {b!r}"
    return None


def unquote(s):
    return s.replace('"', "").replace("'", "")


class Checker:
    def __init__(self, path, report, show_attrs=True, m=5):
        self.path, self.lines, self.show, self.m = path, report, show_attrs, m
        self.pos = 0
        self.problems = []
        self.counts = {}

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def bad(self, slc, what, *detail):
        self.problems.append([slc, what, [str(d)[:300] for d in detail]])

    def next(self):
        if self.pos >= len(self.lines):
            return None
        return self.lines[self.pos]

    class Stop(Exception):
        pass

    def take(self, test, what, addr):
        ln = self.next()
        if ln is None or not test(ln):
            self.bad("structure", f"{what} is not at its place in the tree", addr, ln, f"line {self.pos}")
            raise self.Stop
        self.pos += 1
        return ln

    def check(self):
        with h5py.File(self.path, "r") as f:
            self.nexus = is_nexus(f)
            known, cls = classtext(f)
            head = self.path + (" : NeXus data file" if self.nexus else "") + (":" + cls if cls else "")
            try:
                self.take(lambda ln: ln == head or not known and ln.startswith(self.path), "root", "/")
                self.body(f, "", (), None, "/")
                if self.pos != len(self.lines):
                    self.bad("structure", "tree shows what is not in the file", self.lines[self.pos])
            except self.Stop:
                pass
        return self.problems

    def attributes(self, obj, ind, extra, addr, array=None):
        """a block of attribute lines (any order), with the array of the dataset"""
        want = {}
        if self.show:
            for k in obj.attrs.keys():
                try:
                    v = obj.attrs[k]
                except Exception:
                    v = None
                want[txt(k)] = v
        ext = dict(extra)
        need = len(want) + (len(ext) if self.show else 0)
        if not self.show:
            ext = {}
        got = 0
        while got < need or array is not None:
            ln = self.next()
            if array is not None and ln is not None and ln.startswith(f"{ind}  __array = "):
                self.pos += 1
                self.array(array, ln[len(f"{ind}  __array = "):], addr)
                array = None
                continue
            hit = None
            if ln is not None and ln.startswith(f"{ind}  @"):
                for which in (want, ext):
                    for k in sorted(which, key=len, reverse=True):
                        if ln.startswith(f"{ind}  @{k} = "):
                            hit = which, k
                            break
                    if hit:
                        break
            if hit is None:
                self.bad("structure", "attribute is not shown" if array is None else "array or attribute is not shown", addr, sorted(want) + sorted(ext), ln)
                raise self.Stop
            self.pos += 1
            got += 1
            which, k = hit
            if which is want and k in ext:
                # (an own attribute with the name of one of the link)
                self.count("attribute named as one of the link")
                if unquote(ln[len(f"{ind}  @{k} = "):]) == unquote(txt(ext[k])):
                    which = ext
            v = which.pop(k)
            self.count("attributes")
            self.attr_value(k, v, ln[len(f"{ind}  @{k} = "):], addr, which is ext)

    def attr_value(self, k, v, s, addr, ext):
        t = txt(v) if ext else h5model.as_text(v)
        if isinstance(t, str):
            if unquote(s) != unquote(t):
                self.bad("value", "value of text attribute", f"{addr}@{k}", s, t)
            self.count("attribute text")
        elif isinstance(t, list):
            if unquote(s) != "[" + ", ".join(unquote(x) for x in t) + "]":
                self.bad("value", "value of text attribute (array)", f"{addr}@{k}", s, t)
            self.count("attribute text array")
        elif isinstance(v, (numpy.number, numpy.bool_)) and v.dtype.kind in "biuf":
            if not same_number(s, v):
                self.bad("value", "value of number attribute", f"{addr}@{k}", s, repr(v))
            self.count("attribute number")
        elif isinstance(v, numpy.ndarray) and v.ndim and v.dtype.kind in "iufb" and v.size:
            try:
                items = nested(s)
            except (ValueError, IndexError):
                items = None
            problem = "not an array" if items is None else same_attribute_array(items, v, numpy.nanmax(abs(v)) if v.dtype.kind == "f" else 0, v.size > 1000)
            if problem:
                self.bad("value", "value of number attribute (array)", f"{addr}@{k}", problem, s, repr(v))
            self.count(f"attribute number array, rank {v.ndim}" + (", abridged" if v.size > 1000 else ""))
        else:
            self.count("attribute of other type")

    def array(self, dset, s, addr):
        try:
            tree = nested(s)
        except (ValueError, IndexError) as exc:
            self.bad("value", "array is not shown as such", addr, s, exc)
            return
        p = same_array(tree, dset[()] if dset.size < 100000 else dset, self.m)
        if p:
            self.bad("value", "array values", addr, p, s)
        self.count(f"array rank {dset.ndim}")
        if dset.ndim and max(dset.shape) > self.m:
            self.count("array abridged")

    def dataset(self, d, nm, ind, extra, addr):
        if d.shape is None:
            self.take(lambda ln: ln.startswith(f"{ind}{nm}:") and ln.endswith("= NULL"), "empty dataset", addr)
            self.count("dataset without data space")
            return self.attributes(d, ind, extra, addr)
        kind = d.dtype.kind
        text = kind == "S" or h5py.check_string_dtype(d.dtype) is not None
        m = self.m
        ln = self.take(lambda ln: ln.startswith(f"{ind}{nm}:") and (" = " in ln[len(ind) + len(nm):]), "dataset", addr)
        try:
            # (large arrays: only what is shown gets read)
            value = d[()] if d.size < 100000 else None
        except OSError:
            if " = cannot read data" not in ln and not d.ndim:
                self.bad("structure", "data which cannot be read", addr, ln)
            if self.next() is not None and self.next().startswith(f"{ind}  __array = "):
                self.pos += 1
            return self.attributes(d, ind, extra, addr)
        rest = ln[len(ind) + len(nm) + 1:]
        tx, s = rest.split(" = ", 1)
        array = None
        self.count("datasets")
        if text and value is not None:
            want_type = "NX_CHAR" if self.nexus else "CHAR"
            if not tx.upper().startswith(want_type):
                self.bad("structure", "type of text dataset", addr, tx)
            if isinstance(value, (bytes, str)):
                want = txt(value)
            else:
                want = [txt(x) for x in value.ravel().tolist()]
                want = "[" + ", ".join(want) + "]" if len(want) > 1 else "".join(want)
            self.count("text values")
            if unquote(s) != unquote(want):
                self.bad("value", "value of text dataset", addr, s, want)
        elif kind in "biufc":
            t = str(d.dtype)
            t = "NX_" + t.upper() if self.nexus else t
            shape = "[" + ",".join(map(str, d.shape)) + "]"
            ok = [t + shape]
            if d.shape in ((), (1,)):
                ok = [t, t + "[]", t + "[1]"]
            if tx not in ok:
                self.bad("structure", "type or shape of dataset", addr, tx, ok)
            if d.shape == (1,) or d.shape == ():
                if m > 2 or d.shape == (1,):
                    self.count("scalar values")
                    if not same_number(s.strip("[]"), value.ravel()[0] if d.shape else value):
                        self.bad("value", "value of scalar dataset", addr, s, repr(value))
            elif m <= 2:
                self.count("array not shown")
                if s != "[ ... ]":
                    self.bad("value", "array shown although no items are to be shown", addr, s)
            elif d.ndim == 1:
                self.array(d, s, addr)
            elif s != "__array":
                self.bad("structure", "array of rank 2 or more", addr, s)
            else:
                if d.ndim <= 3:
                    array = d
                else:
                    # (values of higher ranks are not shown)
                    if not (self.next() or "").startswith(f"{ind}  __array = "):
                        self.bad("structure", "array of rank > 3", addr, self.next())
                        raise self.Stop
                    self.pos += 1
        elif self.next() is not None and self.next().startswith(f"{ind}  __array = "):
            self.pos += 1  # other types: any value
        self.attributes(d, ind, extra, addr, array)

    def body(self, g, ind, parents, md, addr):
        extra = {}
        if isinstance(md, h5py.ExternalLink):
            extra = dict(file=md.filename, path=md.path)
        self.attributes(g, ind, extra, addr)
        groups = []
        for name in sorted(g, key=txt):
            nm = txt(name)
            a = addr.rstrip("/") + "/" + nm
            link = getlink(g, name)
            try:
                obj = g[name]
            except (KeyError, OSError, RuntimeError):
                obj = None
            sub = ind + "  "
            if isinstance(link, h5py.SoftLink):
                self.count("soft links")
                self.take(lambda ln: ln == f"{sub}{nm}: --> {txt(link.path)}", "soft link", a)
                continue
            if obj is None:
                self.count("missing external")
                self.take(lambda ln: ln == f"{sub}{nm}: missing external file", "missing external link", a)
                if self.show:
                    for k, v in (("file", link.filename), ("path", link.path)):
                        self.take(lambda ln: unquote(ln) == unquote(f"{sub}  @{k} = {txt(v)}"), "missing external link", a)
                continue
            if any(p == obj for p in (*parents, g)):
                self.count("links back to a container")
                self.take(lambda ln: ln.startswith(f"{sub}{nm} --> /"), "link back to a container", a)
                continue
            try:
                raw = obj.attrs["target"] if "target" in obj.attrs else ""
                target = one(raw)
            except Exception:
                target = None
            ext = dict(file=link.filename, path=link.path) if isinstance(link, h5py.ExternalLink) else {}
            if target is None or (target == "" and "target" in obj.attrs):
                # attribute is not as NeXus has it: any line, but one for this item
                self.bad("domain", "target", a)
                raise self.Stop
            if target and target != obj.name:
                self.count("NeXus links")
                self.take(lambda ln: ln == f"{sub}{nm} --> {target}", "NeXus link", a)
                if isinstance(obj, h5py.Dataset) and ext:
                    self.bad("domain", "external NeXus link", a)
                    raise self.Stop
                continue
            if isinstance(obj, h5py.Group):
                groups.append((obj, nm, link, a))
            elif isinstance(obj, h5py.Dataset):
                self.dataset(obj, nm, sub, ext, a)
            else:
                self.count("datatypes")
                self.take(lambda ln: ln.startswith(f"{sub}{nm}:datatype"), "datatype", a)
                self.attributes(obj, sub, {}, a)
        for obj, nm, link, a in groups:
            known, cls = classtext(obj)
            head = f"{ind}  {nm}" + (":" + cls if cls else "")
            self.take(lambda ln: ln == head or not known and ln.startswith(f"{ind}  {nm}"), "group", a)
            self.count("groups")
            self.body(obj, ind + "  ", (*parents, g), link, a)


def check(path, report, show_attrs=True, m=5):
    """return (problems, counts, complete)"""
    c = Checker(path, report, show_attrs, m)
    p = c.check()
    complete = not any(x[0] == "domain" for x in p)
    return [x for x in p if x[0] != "domain"], c.counts, complete
