"""Generator of HDF5 files: seeded random NeXus-like files, hostile files."""

import os
import random

import h5py
import numpy

STRICT = ["x", "y", "counts", "two_theta", "i0", "_private", "a1b2", "z_9", "temperature_set", "q"]
RELAXED = ["X", "Counts", "A1", "DataSet", "twoTheta", "Temp_K", "_Q", "naïve", "größe", "дані", "Ω", "数据", "NXfoo"]
INVALID = ["1st", "a b", "a-b", "a.b", "x,y", "x:y", " lead", "trail ", "+", "a\nb", "x\n", "9", "{}", "$a", "a%b", "é!", "a\tb", "-", "data.1", "№"]
ATTR_NAMES = ["units", "long_name", "axis", "primary", "offset", "scaling", "interpretation", "default_slice", "x_indices", "Y_indices", "foo", "Version"]
# names with a meaning elsewhere (HDF5 dimension scales, netCDF, images, NeXus)
KNOWN_ELSEWHERE = ["CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST", "DIMENSION_LABELS", "TITLE", "VERSION", "_FillValue", "_Netcdf4Dimid", "_NCProperties", "PALETTE",
                   "IMAGE_VERSION", "HDF5_Version", "h5py_version", "file_time", "file_update_time", "creator", "NeXus_version", "napimount", "NX_class_", "nx_class", "EX_required", "target_", "URL"]
BASES = ["NXdata", "NXinstrument", "NXsample", "NXuser", "NXmonitor", "NXdetector", "NXlog", "NXnote", "NXprocess", "NXsource", "NXcollection", "NXsubentry", "NXcharacterization", "NXbeam", "NXaperture", "NXgeometry"]
ODD_CLASSES = ["NXfoo", "NXmx", "NXsas", "NXarchive", "NXspecdata", "NXcanSAS", "NXreflections", "NXsnsevent", "NXroot", "NXentry", "NXobject", "NXmagnetic_kicker", "NX_bad", "NXX", "NXdata2", "NXData"]
NON_CLASSES = ["foo", "nxdata", "SDS", "", " NXdata", "data", "nXentry"]

VLEN = h5py.string_dtype("utf-8")


def near(rng, values):
    """text which is not, but looks like, one of the enumerated values"""
    v = rng.choice(values)
    k = rng.randrange(14)
    new = [v[1:], v[:-1], v + " ", " " + v, v.upper(), v.lower(), v.title(), v + v, "|".join(values), ",".join(values), v.replace(" ", "_"), v + "\n",
           v[: len(v) // 2], "".join(values)][k]
    return new if new and "\0" not in new else "other"


class Gen:
    """A generator of one file."""

    def __init__(self, rng, path, fs=None, **weights):
        self.rng = rng
        self.path = path
        self.fs = fs
        self.w = dict(
            depth=4, width=5, invalid=0.12, relaxed=0.15, attrs=0.6, links=0.15, broken=0.05,
            nonnx=0.08, odd=0.08, pointer=0.5, external=0.04, appdef=0.25, at=0.0, cycle=0.0,
            datatypes=0.0, text_styles=True, nxarray=0.0, collection=0.0, elsewhere=0.06, scale=0.03,
        )
        self.w.update(weights)
        self.groups = []
        self.dsets = []
        self.events = {}

    def p(self, key):
        hit = self.rng.random() < self.w[key]
        if hit:
            self.events[key] = self.events.get(key, 0) + 1
        return hit

    # ---- text

    def text(self, value, allow_array=False):
        """some HDF5 representation of this text"""
        if not self.w["text_styles"]:
            return value
        k = self.rng.randrange(4)
        if k == 0:
            return value
        if k == 1 and len(value):
            b = value.encode("utf8")
            return numpy.bytes_(b)
        if k == 2 and allow_array and self.rng.random() < 0.5:
            return numpy.array([value], dtype=VLEN)
        return numpy.array(value, dtype=object).astype(VLEN)[()] if False else value

    def set_attr(self, obj, name, value):
        try:
            obj.attrs[name] = value
        except (ValueError, TypeError, OSError, RuntimeError):
            pass

    def name(self, used, pool=None):
        r = self.rng
        for _ in range(50):
            if pool and r.random() < 0.6:
                nm = r.choice(pool)
            elif self.p("invalid"):
                nm = r.choice(INVALID)
            elif self.p("relaxed"):
                nm = r.choice(RELAXED)
            else:
                nm = r.choice(STRICT)
            if r.random() < 0.3:
                nm = nm + str(r.randrange(30)) if nm[-1:] != "\n" else nm
            if nm not in used:
                used.add(nm)
                return nm
        nm = "n%d" % r.randrange(10 ** 9)
        used.add(nm)
        return nm

    # ---- data

    def value(self):
        r = self.rng
        k = r.randrange(12)
        if k == 0:
            return r.randrange(-1000, 1000)
        if k == 1:
            return r.random()
        if k == 2:
            return "some text"
        if k == 3:
            return numpy.array([b"ab", b"c", b"defg"])
        if k == 4:
            return numpy.arange(r.randrange(1, 9), dtype="f4")
        if k == 5:
            return numpy.arange(6).reshape(2, 3)
        if k == 6:
            return "µm Ångström"
        if k == 7:
            return numpy.arange(24).reshape(2, 3, 4)
        if k == 8:
            return numpy.array([1], dtype="i2")
        if k == 9:
            return numpy.bytes_(b"fixed")
        if k == 10:
            return numpy.array(["u", "vw"], dtype=VLEN)
        return numpy.zeros((0,), dtype="i4")

    def dataset(self, group, name, value=None):
        ds = group.create_dataset(name, data=self.value() if value is None else value)
        self.dsets.append(ds)
        self.attributes(ds, is_group=False)
        if self.p("scale"):
            self.scales(group, ds)
        return ds

    def scales(self, group, ds):
        """HDF5 dimension scales"""
        r = self.rng
        try:
            d = r.choice([x for x in self.dsets if x.shape])
            if any(k in x.attrs for k in KNOWN_ELSEWHERE[:5] for x in (d, ds)):
                return  # the HDF5 library dies if these are not as it makes them
            d.make_scale(r.choice(["x", "", "Å"]))
            if ds.shape and d != ds:
                ds.dims[0].attach_scale(d)
                ds.dims[0].label = r.choice(["x", "label"])
        except (IndexError, ValueError, RuntimeError, TypeError, OSError, KeyError):
            pass

    def attributes(self, obj, is_group):
        r = self.rng
        n = 0
        while self.p("attrs") and n < 6:
            n += 1
            if self.p("invalid"):
                nm = r.choice(INVALID)
            elif self.p("relaxed"):
                nm = r.choice(RELAXED)
            elif self.p("elsewhere"):
                nm = r.choice(KNOWN_ELSEWHERE)
            else:
                nm = r.choice(ATTR_NAMES)
            self.set_attr(obj, nm, r.choice([1, 2.5, "text", "µ", numpy.array([1, 2]), self.text("bytes")]))
        if not is_group:
            if r.random() < 0.12 and self.p("pointer"):
                self.set_attr(obj, "signal", r.choice([1, "1", "2", 2, numpy.int32(1), numpy.array([1]), "x", numpy.bytes_(b"1")]))
            if r.random() < 0.1 and self.p("pointer"):
                self.set_attr(obj, "axes", r.choice(["x", "x:y", "x,y", "[x,y]", "x:nothere", "counts:X"]))
        if r.random() < 0.1 and self.p("pointer"):
            tgt = self.any_address()
            self.set_attr(obj, "target", self.text(r.choice(
                [obj.name, tgt, tgt + "/nothere", tgt.lstrip("/"), "/nowhere", tgt, obj.name])))

    def any_address(self):
        pool = self.groups + self.dsets
        return self.rng.choice(pool).name if pool else "/"

    # ---- groups

    def group(self, parent, name, nx_class, depth):
        r = self.rng
        g = parent.create_group(name)
        self.groups.append(g)
        if nx_class is not None:
            if self.p("nxarray"):
                g.attrs["NX_class"] = numpy.array([nx_class], dtype=VLEN)
            else:
                g.attrs["NX_class"] = self.text(nx_class)
        self.fill(g, nx_class, depth)
        self.attributes(g, is_group=True)
        return g

    def fill(self, g, nx_class, depth):
        r = self.rng
        used = set(g)
        fields = groups = ()
        if self.fs is not None and nx_class in self.fs.classes:
            fields = list(self.fs.classes[nx_class].fields)
            groups = list(self.fs.classes[nx_class].groups.values())
        for _ in range(r.randrange(self.w["width"])):
            self.dataset(g, self.name(used, fields))
        if self.w["datatypes"] and self.p("datatypes"):
            g[self.name(used)] = numpy.dtype("f8")
        if depth > 0:
            for _ in range(r.randrange(self.w["width"])):
                if self.p("nonnx"):
                    cls = r.choice(NON_CLASSES + [None, None, None])
                    nm = self.name(used)
                elif self.w["collection"] and self.p("collection"):
                    cls, nm = "NXcollection", self.name(used)
                elif self.p("odd"):
                    cls, nm = r.choice(ODD_CLASSES), self.name(used)
                elif groups and r.random() < 0.5:
                    spec = r.choice(groups)
                    cls = spec.type
                    nm = spec.name if r.random() < 0.6 else None
                    if nm is None or nm in used:
                        nm = self.name(used)
                    used.add(nm)
                else:
                    cls, nm = r.choice(BASES), self.name(used)
                self.group(g, nm, cls, depth - 1)
        if nx_class == "NXdata" and self.p("pointer"):
            names = list(g)
            if names:
                s = r.choice(names + ["nothere", "bad name", "X"])
                self.set_attr(g, "signal", self.text(s, True))
                k = r.randrange(4)
                if k == 0:
                    self.set_attr(g, "axes", self.text(r.choice(names + ["."])))
                elif k == 1:
                    self.set_attr(g, "axes", numpy.array(
                        [r.choice(names + ["nope"]) for _ in range(r.randrange(1, 4))], dtype=VLEN))
                elif k == 2:
                    b = [r.choice(names).encode("utf8") for _ in range(2)]
                    self.set_attr(g, "axes", numpy.array(b))
        if nx_class in ("NXentry", "NXsubentry", "NXroot") and self.p("pointer"):
            names = list(g)
            if names:
                self.set_attr(g, "default", self.text(r.choice(names + ["nothere"]), True))
        if nx_class in ("NXentry", "NXsubentry") and self.p("appdef") and "definition" not in g:
            self.appdef(g)
        # links
        while self.p("links"):
            nm = self.name(used)
            k = r.randrange(4)
            try:
                if k == 0 and self.dsets:
                    g[nm] = r.choice(self.dsets)  # hard link
                elif k == 1:
                    g[nm] = h5py.SoftLink(r.choice(self.dsets).name if self.dsets else "/nope")
                elif k == 2 and self.dsets:
                    d = r.choice(self.dsets)
                    d.attrs["target"] = d.name
                    g[nm] = d
                elif self.groups:
                    tgt = r.choice(self.groups)
                    if not (g.name + "/").startswith(tgt.name.rstrip("/") + "/"):
                        if len(list(tgt)) < 8 and not any(isinstance(v, h5py.Group) for v in tgt.values()):
                            g[nm] = tgt
            except (ValueError, RuntimeError, OSError, KeyError):
                pass
        if self.p("broken"):
            g[self.name(used)] = r.choice([
                h5py.SoftLink("/not/there"), h5py.ExternalLink("no_such_file.h5", "/x"),
                h5py.SoftLink(g.name.rstrip("/") + "/nothing")])
        if self.p("cycle"):
            g[self.name(used)] = r.choice([h5py.SoftLink(g.name), h5py.SoftLink("/"), g])
        if self.p("external"):
            self.external(g, self.name(used))
        return g

    def external(self, g, name):
        fn = os.path.splitext(self.path)[0] + "_ext.h5"
        if not os.path.exists(fn):
            with h5py.File(fn, "w") as f:
                e = f.create_group("entry")
                e.attrs["NX_class"] = "NXentry"
                d = e.create_group("data")
                d.attrs["NX_class"] = "NXdata"
                d.attrs["signal"] = "y"
                d["y"] = [1, 2, 3]
                d["y"].attrs["units"] = "m"
                o = e.create_group("other")
                for g1 in (e, d, o, d["y"]):
                    if self.rng.random() < 0.3:
                        g1.attrs[self.rng.choice(["file", "path"])] = self.rng.choice(["mine.h5", "/entry", 5])
                o["z"] = 3
        g[name] = h5py.ExternalLink(os.path.basename(fn), self.rng.choice(
            ["/entry/data", "/entry/data/y", "/entry", "/entry/other", "/entry/nothere", "/"]))

    def appdef(self, g):
        r = self.rng
        if self.fs is None:
            return
        names = [k for k, d in self.fs.classes.items() if d.category == "applications"]
        names += ["NXspecdata", "NXsnsevent", "NXcanSAS", "NXdata", "NXnosuch"]
        nm = r.choice(names)
        g.create_dataset("definition", data=self.text(nm))
        if nm in self.fs.classes:
            entry = self.fs.entry_of(nm)
            if entry is not None:
                for f, spec in entry.fields.items():
                    if f in g or r.random() < 0.3:
                        continue
                    if spec.enumerations and r.random() < 0.7:
                        g[f] = r.choice(spec.enumerations)
                    else:
                        self.dataset(g, f)

    def build(self):
        r = self.rng
        kw = {}
        if r.random() < 0.3:
            kw["track_order"] = True
        if r.random() < 0.3:
            kw["libver"] = "latest"
        with h5py.File(self.path, "w", **kw) as f:
            for i in range(r.choice([0, 1, 1, 1, 2, 3])):
                nm = r.choice(["entry", "entry", "scan_1", "Scan2", "data"]) + (str(i) if i else "")
                if nm not in f:
                    self.group(f, nm, "NXentry", self.w["depth"] - 1)
            if r.random() < 0.3:
                self.fill(f, "NXroot", 1)
            if r.random() < 0.5:
                self.attributes(f, is_group=True)
            if r.random() < 0.6:
                names = list(f)
                f.attrs["default"] = self.text(r.choice(names + ["nothere"]), True)
            if r.random() < 0.2:
                f.attrs["NX_class"] = r.choice(["NXroot", "NXentry", "NXfoo"])
            if r.random() < 0.3:
                f.attrs["file_name"] = "abc"
        return self.path


def random_file(rng, path, fs=None, **weights):
    g = Gen(rng, path, fs, **weights)
    g.build()
    return g
