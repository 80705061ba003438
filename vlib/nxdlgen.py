"""Random NXDL definitions and file sets, valid by the XML Schema of their file set."""
import json
import os
import shutil
from xml.sax.saxutils import quoteattr

import lxml.etree

from . import common, nxdlref

WORDS = ("data title x y energy wavelength time distance angle name type value mode start_time end_time counts monitor detector sample beam "
         "polar_angle temperature description offset scaling width Height X_pixel _a b2 definition default target signal axes run_cycle group field link").split()
TYPES = "NX_CHAR NX_FLOAT NX_INT NX_UINT NX_POSINT NX_NUMBER NX_DATE_TIME ISO8601 NX_BOOLEAN NX_BINARY".split()
UNITS = "NX_ANGLE NX_ANY NX_LENGTH NX_TIME NX_WAVELENGTH NX_ENERGY NX_UNITLESS NX_COUNT".split()
CLASSES = "NXdata NXdetector NXsample NXinstrument NXcollection NXnote NXuser NXentry NXbeam NXlog NXobject NXparameters NXdata NXsample NXentry NXXray NXNx NXX NXnX NX_a".split()
CORE = "NXroot NXentry NXsubentry NXdata NXcollection NXinstrument NXdetector NXsample NXnote NXuser NXbeam NXlog NXparameters".split()
CATEGORY = dict(base="base_classes", application="applications", contributed="contributed_definitions")


class Gen:
    def __init__(self, rng, version):
        self.rng = rng
        self.version = version

    def text(self):
        return self.rng.choice(["one", "a < b & \"c\"", "neutron", "1", "0", "", "x-ray", "é µ Å", "two words", " ", "None", "true", "1:2", "long " * 12])

    def doc(self):
        k = self.rng.randrange(5)
        if k == 0:
            return "<doc>a description <b xmlns=\"\">of it</b></doc>" if False else "<doc>a description &lt;of&gt; it</doc>"
        if k == 1:
            return "<!-- a comment <field name='no'/> -->"
        return ""

    def after_doc(self):
        return self.rng.choice(["", "", "<!-- comment: <attribute name='no'/> -->", "<?verif <symbol name='no'/> ?>", "\n"])

    def attrs(self, **kw):
        items = [(k, v) for k, v in kw.items() if v is not None]
        self.rng.shuffle(items)
        return "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in items)

    def maybe(self, p, *values):
        return self.rng.choice(values) if self.rng.random() < p else None

    def name(self):
        w = self.rng.choice(WORDS)
        return w + (str(self.rng.randrange(4)) if self.rng.random() < 0.2 else "")

    def enumeration(self):
        n = self.rng.randrange(1, 5)
        return "<enumeration>%s</enumeration>" % "".join(
            "<item value=%s>%s</item>" % (quoteattr(self.text()), self.rng.choice(["", "<doc>d</doc>", "<!-- c -->"])) for _ in range(n))

    def attribute(self, name):
        r = self.rng
        body = (r.choice(["", "<doc>text</doc>"]) + self.after_doc() + (self.enumeration() if r.random() < 0.4 else "")
                + (self.dimensions() if self.version[:7] != "a4fd52d" and r.random() < 0.15 else ""))
        opt = {"optional": self.maybe(0.4, "true", "false", "1", "0"), "recommended": self.maybe(0.3 if self.version.endswith("+") else 0, "true", "false")}
        return "<attribute%s>%s</attribute>" % (self.attrs(name=name, type=self.maybe(0.5, *TYPES), deprecated=self.maybe(0.1, "see x"), **opt), body)

    def some_attributes(self, n=3):
        names = list(dict.fromkeys(self.name() for _ in range(self.rng.randrange(n + 1))))
        return "".join(self.attribute(nm) + self.after_doc() for nm in names)

    def dimensions(self):
        r = self.rng
        rank = r.randrange(4)
        dims = "".join(
            "<dim%s/>" % self.attrs(index=i + 1, value=self.maybe(0.7, "n", "m", "3", ""), ref=self.maybe(0.3, "x", "/NXdata/y"), refindex=self.maybe(0.2, "1"), incr=self.maybe(0.2, "1"))
            for i in range(r.choice([rank, rank, r.randrange(5)])))
        return "<dimensions%s>%s%s</dimensions>" % (self.attrs(rank=self.maybe(0.8, rank, "n", "dataRank")), r.choice(["", "<doc>d</doc>"]), dims)

    def field(self):
        r = self.rng
        a = self.attrs(
            name=self.name(), type=self.maybe(0.6, *TYPES), units=self.maybe(0.4, *UNITS), minOccurs=self.maybe(0.4, "0", "1", " 0 ", "2"),
            maxOccurs=self.maybe(0.2, "1", "unbounded", "5"), long_name=self.maybe(0.1, "Long"), signal=self.maybe(0.1, "1"), axes=self.maybe(0.1, "x:y"),
            axis=self.maybe(0.1, "2"), primary=self.maybe(0.1, "1"), deprecated=self.maybe(0.1, "yes"), nameType=self.maybe(0.2, "any", "specified"),
            stride=self.maybe(0.05, "2"), interpretation=self.maybe(0.1, "image"), optional=self.maybe(0.15, "true", "false", "1"),
            recommended=self.maybe(0.1, "true", "false"))
        body = r.choice(["", "<doc>field</doc>", "<doc/>"]) + self.after_doc() + (self.dimensions() if r.random() < 0.4 else "") + self.some_attributes(2)
        body += self.enumeration() if r.random() < 0.3 else ""
        return "<field%s>%s</field>" % (a, body)

    def link(self):
        return "<link%s>%s</link>" % (self.attrs(name=self.name(), target=self.rng.choice(["/NXentry/NXdata/x", "/NXentry/NXinstrument/NXdetector/data", "/entry/y"])),
                                      self.rng.choice(["", "<doc>a link</doc>"]))

    def group(self, depth):
        r = self.rng
        a = self.attrs(type=r.choice(CLASSES), name=self.maybe(0.5, self.name()), minOccurs=self.maybe(0.3, "0", "1"), maxOccurs=self.maybe(0.2, "1", "unbounded"),
                       deprecated=self.maybe(0.1, "old"), optional=self.maybe(0.1, "true"), recommended=self.maybe(0.1, "true"))
        return "<group%s>%s</group>" % (a, self.content(depth - 1) if depth > 0 else "")

    def content(self, depth, n=4):
        r = self.rng
        out = ""
        seen = False
        for turn in range(r.choice([1, 1, 2, 3])):
            out += r.choice(["", "<doc>part</doc>"])
            if not seen:
                out += self.some_attributes()
                seen = True
            for kind, k in (("group", 3), ("field", n), ("link", 2)):
                for _ in range(r.randrange(k)):
                    out += (self.group(depth) if kind == "group" else self.field() if kind == "field" else self.link()) + self.after_doc()
        return out

    def definition(self, name, category):
        r = self.rng
        a = self.attrs(name=name, type="group", extends="NXobject", category=category, version="1.0" if self.version[:7] != "v2018.5" else None,
                       ignoreExtraFields=self.maybe(0.2, "true"), deprecated=self.maybe(0.1, "old"))
        out = '<?xml version="1.0" encoding="UTF-8"?>\n' + self.rng.choice(["", "<!-- NXDL <definition/> -->\n", "<?xml-stylesheet type=\"text/xsl\" href=\"nxdlformat.xsl\"?>\n"])
        out += '<definition xmlns="http://definition.nexusformat.org/nxdl/3.1"%s>' % a
        if r.random() < 0.4:
            out += "<symbols>%s%s</symbols>" % (r.choice(["", "<doc>s</doc>"]), "".join('<symbol name="%s"><doc>d</doc></symbol>%s' % (s, self.after_doc()) for s in r.sample(["n", "m", "dataRank", "n_x"], r.randrange(4))))
        if category != "base" and r.random() < 0.8:
            entry = "<doc>d</doc>" + self.some_attributes() + "".join(self.group(1) for _ in range(r.randrange(3)))
            fields = [self.field() for _ in range(r.randrange(5))]
            if r.random() < 0.75:
                fields.append('<field name="definition">%s<enumeration><item value="%s"/></enumeration></field>' % (r.choice(["", "<doc/>"]), name))
            r.shuffle(fields)
            out += "<group%s>%s</group>" % (self.attrs(type=r.choice(["NXentry", "NXentry", "NXsubentry"]), name=self.maybe(0.5, "entry", "scan")), entry + "".join(fields) + "".join(self.link() for _ in range(r.randrange(2))))
        else:
            out += self.content(2)
        return out + "</definition>\n"


_schemas = {}
NEWER = ('<xs:attribute name="optional" use="optional" type="nx:NX_BOOLEAN" default="false"/>'
         '<xs:attribute name="recommended" use="optional" type="nx:NX_BOOLEAN" default="false"/>')

RECOMMENDED = '<xs:attribute name="recommended" use="optional" type="nx:NX_BOOLEAN" default="false"/>'


def xsd_text(version):
    """``version`` with '+': the newer attributes @optional and @recommended of fields and groups are added"""
    with open(os.path.join(common.CACHE, version.rstrip("+"), "nxdl.xsd"), encoding="utf8") as f:
        text = f.read()
    if version.endswith("+"):
        i = text.index("<xs:attribute ", text.index('<xs:complexType name="attributeType"'))
        text = text[:i] + RECOMMENDED + "\n" + text[i:]
        text = text.replace('<xs:attribute name="minOccurs"', NEWER.replace("/><", "/>\n<") + '\n<xs:attribute name="minOccurs"')
    return text


def schema(version):
    if version not in _schemas:
        doc = lxml.etree.fromstring(xsd_text(version).encode("utf8"), base_url=os.path.join(common.CACHE, version.rstrip("+"), "nxdl.xsd"))
        _schemas[version] = lxml.etree.XMLSchema(doc)
    return _schemas[version]


def valid_definition(rng, version, name, category, tries=60):
    """a definition which is valid by the XML Schema, and its text"""
    for i in range(tries):
        text = Gen(rng, version).definition(name, category)
        try:
            doc = lxml.etree.fromstring(text.encode("utf8"))
        except lxml.etree.XMLSyntaxError:
            raise
        if schema(version).validate(doc):
            return text
        # some attributes are not defined in all versions
        strip(doc, version)
        if schema(version).validate(doc):
            return '<?xml version="1.0" encoding="UTF-8"?>\n' + lxml.etree.tostring(doc, encoding="unicode")
    raise RuntimeError("no valid definition for %s: %s" % (version, schema(version).error_log))


def strip(doc, version):
    """remove what this version of NXDL does not have"""
    for _ in range(40):
        if schema(version).validate(doc):
            return
        e = schema(version).error_log[0]
        removed = False
        for node in doc.iter():
            if isinstance(node.tag, str) and node.sourceline == e.line:
                for k in list(node.attrib):
                    if ("attribute '%s'" % k) in e.message and node.tag.split("}")[1] in e.message:
                        del node.attrib[k]
                        removed = True
        if not removed:
            return


def make_set(rng, path, version, n=4, core=CORE):
    """A file set with the core classes of ``version`` and ``n`` random ones of each category"""
    src = os.path.join(common.CACHE, version.rstrip("+"))
    for cat in CATEGORY.values():
        os.makedirs(os.path.join(path, cat))
    shutil.copyfile(os.path.join(src, "nxdlTypes.xsd"), os.path.join(path, "nxdlTypes.xsd"))
    with open(os.path.join(path, "nxdl.xsd"), "w", encoding="utf8") as f:
        f.write(xsd_text(version))
    for nm in core:
        fn = os.path.join("base_classes", nm + ".nxdl.xml")
        if os.path.exists(os.path.join(src, fn)):
            shutil.copyfile(os.path.join(src, fn), os.path.join(path, fn))
    for category, d in CATEGORY.items():
        for i in range(n):
            name = "NXr%s%d" % (category[0], i)
            with open(os.path.join(path, d, name + ".nxdl.xml"), "w", encoding="utf8") as f:
                f.write(valid_definition(rng, version, name, category))
    # not NXDL files
    for fn in ("README.xml", "applications/nxdlformat.xsl", "base_classes/NXnot.xml", "base_classes/NXold.nxdl.xml.bak"):
        if rng.random() < 0.5:
            with open(os.path.join(path, fn), "w") as f:
                f.write("not xml")
    with open(os.path.join(path, "__github_info__.json"), "w") as f:
        json.dump(dict(ref=os.path.basename(path), sha="0123456789", zip_url="x", last_modified="2001-01-01 00:00:0%d" % rng.randrange(10)), f)
    return path


def add_comments(rng, root, n):
    """comments and processing instructions next to any elements, on the same line"""
    nodes = [x for x in root.iter("*") if x is not root]
    for _ in range(n):
        e = rng.choice(nodes)
        new = rng.choice([lxml.etree.Comment(" verif "), lxml.etree.ProcessingInstruction("verif", "x")])
        rng.choice([e.addnext, e.addprevious, lambda c: e.insert(0, c)])(new)


def mutate_xsd(rng, text, safe=True):
    """other defaults, uses, patterns, enumerations, and more attributes; ``safe``: all valid NXDL files stay valid"""
    XS = "{http://www.w3.org/2001/XMLSchema}"
    for _ in range(20):
        root = lxml.etree.fromstring(text.encode("utf8"))
        done = []
        attrs = [a for a in root.iter(XS + "attribute") if a.get("name")]
        for _ in range(rng.randrange(1, 8)):
            k = rng.randrange(8 if safe else 11)
            a = rng.choice(attrs)
            if k == 0 and a.get("type") in ("nx:nonNegativeUnbounded", "nx:NX_INT", "nx:NX_BOOLEAN") and a.get("use") != "required":
                d = rng.choice(["0", "1", "2", "7"]) if a.get("type") != "nx:NX_BOOLEAN" else rng.choice(["true", "false", "true", "false", "1", "0"])
                a.set("default", d)
                done.append(["default", a.get("name"), d])
            elif k == 1 and a.get("use") == "required" and a.get("name") not in ("name", "type", "value", "index", "category"):
                a.set("use", "optional")
                done.append(["optional", a.get("name")])
            elif k == 2 and not safe and a.get("default") is None:
                a.set("use", "required")
                done.append(["required", a.get("name")])
            elif k == 3:
                new = lxml.etree.fromstring('<x xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:attribute name="verif%d" default="%d" type="xs:string"/></x>' % (rng.randrange(100), rng.randrange(9)))[0]
                if not any(s.get("name") == new.get("name") for s in a.getparent()):
                    new.tail = "\n"
                    a.tail = "\n"
                    a.addnext(new)
                    done.append(["new", new.get("name")])
            elif k == 4:
                p = rng.choice(list(root.iter(XS + "pattern")))
                p.set("value", p.get("value") + rng.choice(["|x.*", "|[0-9]+"]))
                done.append(["pattern", p.get("value")])
            elif k == 5:
                e = rng.choice(list(root.iter(XS + "enumeration")))
                new = lxml.etree.fromstring('<x xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:enumeration value="verif%d"/></x>' % rng.randrange(100))[0]
                new.tail = "\n"
                e.addnext(new)
                done.append(["enumeration", new.get("value")])
            elif k == 6:
                add_comments(rng, root, rng.choice([1, 1, 10]))
                done.append(["comments"])
            elif k == 7 and a.get("type") == "nx:NX_BOOLEAN" and a.get("default") is not None:
                del a.attrib["default"]
                done.append(["no default", a.get("name")])
            elif k == 7 and not safe and a.find(XS + "simpleType/" + XS + "restriction") is not None:
                r = a.find(XS + "simpleType/" + XS + "restriction")
                r.append(lxml.etree.Element(XS + "pattern", value=rng.choice(["x.*", "[0-9]+", ".*"])))
                done.append(["pattern of attribute", a.get("name")])
            elif k == 10 and a.get("default") is None and a.get("use") != "required":
                a.set("use", "prohibited")
                done.append(["prohibited", a.get("name")])
            elif k in (8, 9):
                valid = [t for t in root.findall(XS + "simpleType") if t.get("name").startswith("valid")]
                t = rng.choice(valid)
                if k == 8:
                    r, m = t.find(XS + "restriction"), lxml.etree.Element(XS + "maxLength", value=str(rng.choice([1, 20, 63])))
                    if r.find(XS + "maxLength") is None:
                        r.append(m)
                        done.append(["maxLength", t.get("name")])
                else:
                    new = lxml.etree.fromstring('<x xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:simpleType name="validVerif%d"><xs:restriction base="nx:%s"><xs:pattern value="N.*"/><xs:pattern value="a+"/></xs:restriction></xs:simpleType></x>' % (
                        rng.randrange(100), t.get("name")))[0]
                    if rng.random() < 0.4:
                        new[0].append(lxml.etree.Element(XS + "maxLength", value="7"))
                    if rng.random() < 0.3:
                        new[0].remove(new[0][0])
                    if all(v.get("name") != new.get("name") for v in valid):
                        rng.choice([valid[0].addprevious, valid[-1].addnext])(new)
                        done.append(["simpleType", new.get("name"), t.get("name")])
        out = '<?xml version="1.0" encoding="UTF-8"?>\n' + lxml.etree.tostring(root, encoding="unicode")
        base = os.path.join(common.CACHE, "v3.3", "nxdl.xsd")
        try:
            lxml.etree.XMLSchema(lxml.etree.fromstring(out.encode("utf8"), base_url=base))
        except lxml.etree.XMLSchemaParseError:
            continue
        return out, done
    return text, []


ITEM_PATTERNS = [r"[A-Za-z_][A-Za-z0-9_]*", r"[A-Za-z_0-9][\w_]*", r"[A-Za-z_][\w_.]*", r"[A-Za-z_][\w_]*|[+-]"]
CLASS_PATTERNS = [r"NX[A-Za-z_0-9]+", r"NX[a-z].*", r"NX.+", r"NX[^é]+"]


def user_sets(ctx, rng, n, patterns=0.7):
    """``n`` file sets in the user cache of this check: core classes (some altered) and random ones, some with other naming patterns"""
    os.environ["XDG_CONFIG_HOME"] = ctx.config  # for nxdlref.bundled() in this process
    base = os.path.join(ctx.config, "punx")
    os.makedirs(base, exist_ok=True)
    names = []
    for i in range(n):
        nm = "gen%d" % i
        path = make_set(rng, os.path.join(base, nm), rng.choice(["a4fd52d", "v3.3", "v2018.5", "v3.3+", "v2018.5+"]), n=6)
        fn = os.path.join(path, "nxdl.xsd")
        with open(fn, encoding="utf8") as f:
            text = f.read()
        if rng.random() < patterns:
            new = text.replace('value="[A-Za-z_][\\w_]*"', 'value="%s"' % rng.choice(ITEM_PATTERNS)).replace('value="NX.+"', 'value="%s"' % rng.choice(CLASS_PATTERNS))
            try:
                lxml.etree.XMLSchema(lxml.etree.fromstring(new.encode("utf8"), base_url=fn))
            except lxml.etree.XMLSchemaParseError:
                new = text
            with open(fn, "w", encoding="utf8") as f:
                f.write(new)
        alter_entry(rng, path, rng.choice([0.05, 0.15, 0.25]) if i == 0 else rng.random())
        if rng.random() < 0.3:  # a class less
            fn2 = os.path.join(path, "base_classes", rng.choice(["NXroot", "NXdata", "NXsubentry", "NXcollection", "NXnote"]) + ".nxdl.xml")
            if os.path.exists(fn2):
                os.remove(fn2)
        pointer_attributes(rng, path)
        if not all_valid(path):
            with open(fn, "w", encoding="utf8") as f:
                f.write(text)
        drop_ambiguous(path)
        names.append(nm)
    return names


def drop_ambiguous(path):
    """remove contributed definitions of which it is not specified if they are application definitions (NeXus has just: 'entry' with a definition)"""
    fs = nxdlref.FileSet(path)
    for nm, d in fs.classes.items():
        if d.category == "contributed_definitions":
            e = d.groups.get("entry")
            if fs.as_base_class(nm) != (e is None or "definition" not in e.fields):
                os.remove(d.file)


def alter_entry(rng, path, what):
    """another number of required NXdata in NXentry, or NXentry without it, or no NXentry"""
    fn = os.path.join(path, "base_classes", "NXentry.nxdl.xml")
    doc = lxml.etree.parse(fn)
    if what < 0.1:
        os.remove(fn)
        return
    for g in doc.getroot().findall("{*}group"):
        if g.get("type") == "NXdata" and g.get("name", "data") == "data":
            if what < 0.2:
                g.getparent().remove(g)
                continue
            elif what < 0.3:
                g.set("name", "DATA")
            k = rng.choice(["0", "1", None])
            if k is None:
                g.attrib.pop("minOccurs", None)
            else:
                g.set("minOccurs", k)
    doc.write(fn, encoding="utf-8", xml_declaration=True)


def pointer_attributes(rng, path):
    """attributes which name other items are defined in some more classes, or not"""
    for nm in ("NXroot", "NXentry", "NXsubentry", "NXdata", "NXcollection"):
        fn = os.path.join(path, "base_classes", nm + ".nxdl.xml")
        if not os.path.exists(fn):
            continue
        doc = lxml.etree.parse(fn)
        root = doc.getroot()
        for k in ("target", "signal", "default", "axes"):
            found = [a for a in root.iterfind("{*}attribute") if a.get("name") == k]
            if found and rng.random() < 0.1:
                root.remove(found[0])
            elif not found and rng.random() < (0.6 if k == "target" else 0.25):
                root.append(root.makeelement("{http://definition.nexusformat.org/nxdl/3.1}attribute", name=k))
        if lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(path, "nxdl.xsd"))).validate(doc):
            doc.write(fn, encoding="utf-8", xml_declaration=True)


def all_valid(path):
    schema = lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(path, "nxdl.xsd")))
    for d in CATEGORY.values():
        for fn in os.listdir(os.path.join(path, d)):
            if fn.endswith(".nxdl.xml") and not schema.validate(lxml.etree.parse(os.path.join(path, d, fn))):
                return False
    return True
