"""Independent reading of nxdl.xsd and nxdlTypes.xsd (nothing from punx)."""
import os
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"


def local(ref):
    return None if ref is None else ref.split(":")[-1]


class Attribute:
    def __init__(self, node):
        self.name = node.get("name")
        self.required = node.get("use") == "required"
        self.default = node.get("default")
        self.type = local(node.get("type"))
        r = node.find(f"{XS}simpleType/{XS}restriction")
        self.enum = [] if r is None else [e.get("value") for e in r.findall(XS + "enumeration")]
        self.patterns = [] if r is None else [e.get("value") for e in r.findall(XS + "pattern")]

    def basic(self):
        return [self.required, self.default]


class Schema:
    def __init__(self, path):
        self.root = ET.parse(os.path.join(path, "nxdl.xsd")).getroot()
        self.named = {}
        for n in self.root:
            if n.get("name") is not None and n.tag != XS + "element":
                self.named[n.get("name")] = n
        self.definition = local(self.root.find(XS + "element").get("type"))

    def content(self, node):
        """attributes {name: Attribute} and child elements {name: node} of a type (or group) node"""
        attrs, elements = {}, {}
        for n in node:
            tag = n.tag
            if tag == XS + "attribute":
                attrs[n.get("name")] = Attribute(n)
            elif tag in (XS + "attributeGroup", XS + "group"):
                a, e = self.content(self.named[local(n.get("ref"))])
                attrs.update(a)
                elements.update(e)
            elif tag == XS + "sequence":
                a, e = self.content(n)
                attrs.update(a)
                elements.update(e)
            elif tag == XS + "complexContent":
                ext = n.find(XS + "extension")
                for x in (self.named[local(ext.get("base"))], ext):
                    a, e = self.content(x)
                    attrs.update(a)
                    elements.update(e)
            elif tag == XS + "element":
                elements[n.get("name")] = n
        return attrs, elements

    def of_type(self, name):
        return self.content(self.named[name])

    def of_element(self, node):
        if node.get("type") is not None:
            return self.of_type(local(node.get("type")))
        t = node.find(XS + "complexType")
        return ({}, {}) if t is None else self.content(t)

    def find(self, *names):
        """attributes of the element definition/names[0]/names[1]..."""
        attrs, elements = self.of_type(self.definition)
        for nm in names:
            attrs, elements = self.of_element(elements[nm])
        return attrs

    def simple(self, unions=False):
        """named simple types: base, patterns (with those of the base), maxLength"""
        raw = {}
        for k, n in self.named.items():
            r = n.find(XS + "restriction")
            if n.tag == XS + "simpleType" and r is None and unions:
                raw[k] = [None, [], None]
            elif n.tag == XS + "simpleType" and r is not None:
                m = r.find(XS + "maxLength")
                raw[k] = [local(r.get("base")), [p.get("value") for p in r.findall(XS + "pattern")], None if m is None else int(m.get("value"))]
        def resolve(k):
            base, pats, m = raw[k]
            if base in raw:  # the patterns of all bases count, the nearest maxLength
                b, p, bm = resolve(base)
                return [b, pats + p, bm if m is None else m]
            return [base, list(pats), m]

        return {k: resolve(k) for k in raw}


def types(path):
    """named types of nxdlTypes.xsd: name: (restriction base, enumerated values, members of union)"""
    out = {}
    for n in ET.parse(os.path.join(path, "nxdlTypes.xsd")).getroot():
        if n.get("name") is None:
            continue
        r, u = n.find(XS + "restriction"), n.find(XS + "union")
        out[n.get("name")] = dict(
            base=None if r is None else local(r.get("base")),
            values=[] if r is None else [e.get("value") for e in r.findall(XS + "enumeration")],
            union=[] if u is None else [local(x) for x in u.get("memberTypes").split()])
    return out
