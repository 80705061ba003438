"""Independent reading of a NXDL file set (nothing from punx), for the oracles."""

import functools
import glob
import os
import re
import xml.etree.ElementTree as ET

NX = "{http://definition.nexusformat.org/nxdl/3.1}"
XS = "{http://www.w3.org/2001/XMLSchema}"
CATEGORIES = "base_classes applications contributed_definitions".split()
STRICT = r"[a-z_][a-z0-9_]*"


class Component:
    """definition, group, field, or link"""

    def __init__(self, node, kind):
        self.kind = kind
        self.node = node
        self.xml = dict(node.attrib)
        self.type = node.get("type")
        self.name = node.get("name")
        if kind == "group" and self.name is None:
            self.name = self.type[2:]
        self.attributes = {}  # name: list of enumerated values
        for a in node.findall(NX + "attribute"):
            self.attributes[a.get("name")] = [
                i.get("value") for e in a.findall(NX + "enumeration") for i in e.findall(NX + "item")
                if i.get("value") is not None
            ]
        self.enumerations = [
            i.get("value") for e in node.findall(NX + "enumeration") for i in e.findall(NX + "item")
        ]
        self.optional = (node.get("minOccurs") or "").strip() == "0" or any(
            node.get(k) in ("true", "yes", "1") for k in ("optional", "recommended"))
        self.groups, self.fields, self.links = {}, {}, {}
        if kind in ("definition", "group"):
            used = set()
            for kd, db in (("group", self.groups), ("field", self.fields), ("link", self.links)):
                for n in node.findall(NX + kd):
                    c = Component(n, kd)
                    nm, i = c.name, 0
                    while nm in used:
                        i += 1
                        nm = f"{c.name}{i}"
                    used.add(nm)
                    c.name = nm
                    db[nm] = c
        self.dims = None
        if kind == "field":
            d = node.findall(NX + "dimensions")
            if len(d) == 1:
                self.dims = dict(
                    rank=d[0].get("rank"),
                    dim={x.get("index"): {k: x.get(k) for k in "index value ref refindex incr".split()}
                         for x in d[0].findall(NX + "dim")},
                )
        self.target = node.get("target")

    def known_attributes(self):
        return set(self.attributes)


class FileSet:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        self.classes = {}
        for cat in CATEGORIES:
            for fn in sorted(glob.glob(os.path.join(glob.escape(os.path.join(path, cat)), "*.nxdl.xml"))):
                c = Component(ET.parse(fn).getroot(), "definition")
                c.category = cat
                c.title = os.path.basename(fn).split(".")[0]
                c.file = fn
                c.symbols = [
                    s.get("name") for ss in c.node.findall(NX + "symbols") for s in ss.findall(NX + "symbol")
                    if s.get("name") is not None
                ]
                self.classes[c.title] = c
        self.patterns = {}
        root = ET.parse(os.path.join(path, "nxdl.xsd")).getroot()
        raw = {}
        for st in root.findall(XS + "simpleType"):
            r = st.find(XS + "restriction")
            if r is not None:
                raw[st.get("name")] = (r.get("base").split(":")[-1], [p.get("value") for p in r.findall(XS + "pattern")])
        for k, (base, pats) in raw.items():
            pats = list(pats)
            if base in raw:
                pats += raw[base][1]
            self.patterns[k] = pats

    # ---- rules

    def name_status(self, text):
        """OK, NOTE or None (not valid)"""
        if re.fullmatch(STRICT, text):
            return "OK"
        if any(re.fullmatch(p, text) for p in self.patterns["validItemName"]):
            return "NOTE"
        return None

    def nx_class_pattern_ok(self, text):
        return any(re.fullmatch(p, text) for p in self.patterns["validNXClassName"])

    def as_base_class(self, name):
        """may this class be used as @NX_class of a group?"""
        d = self.classes.get(name)
        if d is None:
            return False
        if d.category == "base_classes":
            return True
        if d.category == "applications":
            return False
        # contributed: application definitions have an entry with a ``definition`` field
        if len(d.groups) == 1 and not d.fields and not d.links:
            return "definition" not in list(d.groups.values())[0].fields
        return True

    def entry_of(self, name):
        d = self.classes[name]
        return list(d.groups.values())[0] if d.groups else None


@functools.lru_cache(None)
def file_set(path):
    return FileSet(path)


def bundled(name):
    from . import common

    path = os.path.join(common.CACHE, name)
    if not os.path.isdir(path):  # generated, in the user cache
        path = os.path.join(os.environ["XDG_CONFIG_HOME"], "punx", name)
    return file_set(path)
