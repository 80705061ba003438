"""Independent reading of an HDF5 file (nothing from punx), for the oracles.

Trusts h5py.
"""

import h5py
import numpy

NONNX = "non-NeXus content"


def txt(value):
    """any text as str: UTF-8, replacement characters for anything else"""
    if isinstance(value, str):
        value = value.encode("utf8", "surrogateescape")
    return value.decode("utf8", "replace")


def as_text(value):
    """attribute value as one str, or list of str; None if not text"""
    if isinstance(value, (str, bytes)):
        return txt(value)
    if isinstance(value, numpy.ndarray) and value.dtype.kind in "SO" and value.size > 0:
        flat = value.ravel().tolist()
        if all(isinstance(v, (str, bytes)) for v in flat):
            if value.ndim > 1:
                return None
            return [txt(v) for v in flat]
    return None


def one_text(value):
    """attribute value as str if it is one text (scalar or array of one), else None"""
    t = as_text(value)
    if isinstance(t, list):
        t = t[0] if len(t) == 1 else None
    return t


class Attr:
    def __init__(self, owner, name, value):
        self.owner, self.name, self.value = owner, name, value
        self.text = as_text(value)
        self.one = one_text(value)
        self.addr = None if owner.cp == NONNX else f"{owner.addr}@{name}"
        self.cp = NONNX if owner.cp == NONNX else f"{owner.cp}@{name}"


class Node:
    """one catalogued object of the file"""

    def __init__(self, parent, name, h5, kind):
        self.parent, self.name, self.h5, self.kind = parent, name, h5, kind
        if parent is None:
            self.addr, self.cp, self.nx_class = "/", "", "NXroot"
        else:
            self.addr = parent.addr.rstrip("/") + "/" + name
            self.nx_class = None
            if parent.cp == NONNX:
                self.cp = NONNX
            elif kind == "group":
                c = h5.attrs.get("NX_class")
                c = txt(c) if isinstance(c, (str, bytes)) else None
                if c is not None and c.startswith("NX"):
                    self.nx_class = c
                    self.cp = parent.cp + "/" + c
                else:
                    self.cp = NONNX
            else:
                self.cp = parent.cp + "/" + name
        self.attrs = {}
        for k in h5.attrs.keys():
            nm = txt(k)
            try:
                val = h5.attrs[k]
            except Exception:
                val = None
            self.attrs[nm] = Attr(self, nm, val)
        self.children = []  # Nodes
        self.links = []  # (name, kind) of what cannot be catalogued: broken | cycle

    def walk(self):
        pending = [self]  # no recursion: groups can be nested deeper than its limit
        while pending:
            node = pending.pop()
            yield node
            pending.extend(reversed(node.children))

    def attr1(self, name):
        a = self.attrs.get(name)
        return None if a is None else a.one


def ident(obj):
    info = h5py.h5o.get_info(obj.id)
    return (info.fileno, info.addr)


def kind_of(obj):
    if isinstance(obj, h5py.Group):
        return "group"
    if isinstance(obj, h5py.Dataset):
        return "dataset"
    return "datatype"


def read(h5file, limit=100000):
    """Return the Node of the root"""
    root = Node(None, "/", h5file, "root")
    budget = [limit]

    pending = [(root, frozenset({ident(h5file["/"])}))]
    while pending:
        node, chain = pending.pop()
        for name in node.h5:
            budget[0] -= 1
            if budget[0] < 0:
                raise RuntimeError("file too large for the model")
            nm = txt(name)
            try:
                obj = node.h5[name]
            except (KeyError, OSError, RuntimeError):
                node.links.append((nm, "broken"))
                continue
            kind = kind_of(obj)
            if ident(obj) in chain:
                node.links.append((nm, "cycle"))
                continue
            child = Node(node, nm, obj, kind)
            node.children.append(child)
            if kind == "group":
                pending.append((child, chain | {ident(obj)}))
    return root


def in_group(group, path):
    """does ``path`` lead from ``group`` to some object?"""
    if not isinstance(group, h5py.Group):
        return False
    if path == "" or "\0" in path:
        return False
    try:
        return group.get(path) is not None
    except Exception:
        return False
