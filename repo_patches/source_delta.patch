From bde2f3ae9e0671cd3973c6331e877d5c37ca2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 01/48] fix: decode text as UTF-8 regardless of array storage
 or terminal encoding

numpy arrays of fixed-length strings with non-ASCII UTF-8 text raised
UnicodeDecodeError, scalars were decoded with the encoding of stdout, and
text that is not UTF-8 raised an exception.
---
 punx/utils.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..e99a005 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -44,15 +43,32 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
-            return value.astype('U').tolist()
+            return _decode_text(value.tolist())
         else:
             return None
-    elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+    elif isinstance(value, (bytes, numpy.bytes_, str)):
+        return _decode_text(value)
     else:
         return value
 
 
+def _decode_text(value):
+    """Return ``value`` (text or nested list of text) as printable unicode.
+
+    Text in HDF5 files is either ASCII or UTF-8.  Anything which
+    is not valid UTF-8 gets a replacement character.
+    """
+    if isinstance(value, str):
+        # h5py uses surrogate escapes for bytes that are not valid UTF-8
+        value = value.encode("utf8", errors="surrogateescape")
+    if isinstance(value, bytes):
+        return value.decode("utf8", errors="replace")
+    elif isinstance(value, (list, tuple)):
+        return [_decode_text(v) for v in value]
+    else:
+        return str(value)
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
-- 
2.43.0


From 141a2bc76ae629ffee18ccf1ddd4e23d3b8fbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/48] fix: use addresses of this file for content of external
 links

The name of an object reached through an external link is its address
in the *other* file.  Cataloging by that name replaced unrelated items
(even the root) of the file being validated.  Also, the parent of items in
a non-NeXus group is that group, not its last attribute.
---
 punx/validate.py                              | 26 ++++++++++---------
 punx/validations/default_plot.py              |  4 +--
 .../hdf5_group_items_in_base_class.py         |  2 +-
 punx/validations/item_name.py                 |  2 +-
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..968b9e7 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -267,7 +267,7 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, link_name=None):
         """
         catalog this group's address and all its contents
         """
@@ -278,8 +278,8 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, link_name=None):
+            v = ValidationItem(parent, o, link_name=link_name)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
@@ -289,13 +289,12 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
-        obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        parent = get_subject(parent, group, link_name)
         for item in group:
             if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
+                self._group_address_catalog_(parent, group[item], item)
             else:
-                get_subject(parent, group[item])
+                get_subject(parent, group[item], item)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -394,17 +393,20 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, link_name=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
         if hasattr(obj, "name"):
-            self.h5_address = obj.name
-            if obj.name == SLASH:
-                self.name = SLASH
+            if parent is not None and link_name is not None:
+                # ``obj.name`` is not the address in *this* file
+                # when ``obj`` was reached through an external link
+                self.h5_address = parent.h5_address.rstrip(SLASH) + SLASH + link_name
+                self.name = link_name
             else:
-                self.name = obj.name.split(SLASH)[-1]
+                self.h5_address = obj.name
+                self.name = obj.name.split(SLASH)[-1] or SLASH
             self.classpath = self.determine_NeXus_classpath()
         else:
             self.name = attribute_name
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..6530e77 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -64,9 +64,9 @@ def default_plot_v3(validator):
         "create the HDF5 address"
         if isinstance(v_item.h5_object, str):
             parent = v_item.parent or v_item
-            addr = parent.h5_object.name
+            addr = parent.h5_address
         else:
-            addr = v_item.h5_object.name
+            addr = v_item.h5_address
         if not addr.endswith("/"):
             addr += "/"
         addr += utils.decode_byte_string(pointer)
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..8e23b34 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -120,7 +120,7 @@ def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
         obj = v_item.h5_object[child_name]
-        v_sub_item = validator.addresses[obj.name]
+        v_sub_item = validator.addresses[v_item.h5_address.rstrip("/") + "/" + child_name]
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..a2ab9e4 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -34,7 +34,7 @@ def isNeXusLinkTarget(v_item):
     It is a "source" if its HDF5 address matches the target attribute value.
     """
     if "target" in v_item.h5_object.attrs:
-        source_name = utils.decode_byte_string(v_item.h5_address)
+        source_name = utils.decode_byte_string(v_item.h5_object.name)
         target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
         return target_name != source_name
     return False  # no @target attribute at all
-- 
2.43.0


From 6da07d7cc6ab7c70b5464bda2084404ea4e7f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 03/48] fix: validate files with broken or circular links

A link to something which does not exist raised KeyError.  A link
to a group which contains that link raised RecursionError.
Such links are now reported and not followed.
---
 punx/validate.py                              | 24 ++++++++++++++++---
 .../hdf5_group_items_in_base_class.py         |  7 ++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 968b9e7..1307641 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -291,10 +291,19 @@ class Data_File_Validator(object):
 
         parent = get_subject(parent, group, link_name)
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item], item)
+            try:
+                h5_object = group[item]
+            except (KeyError, OSError, RuntimeError) as exc:
+                c = f"cannot read '{item}': {exc}"
+                self.record_finding(parent, f"link '{item}'", finding.WARN, c)
+                continue
+            if parent.is_inside(h5_object):
+                c = f"'{item}' links back to a group which contains it"
+                self.record_finding(parent, f"link '{item}'", finding.NOTE, c)
+            elif utils.isHdf5Group(h5_object):
+                self._group_address_catalog_(parent, h5_object, item)
             else:
-                get_subject(parent, group[item], item)
+                get_subject(parent, h5_object, item)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -429,6 +438,15 @@ class ValidationItem(object):
         except Exception:
             return object.__str__(self, *args, **kwargs)
 
+    def is_inside(self, obj):
+        """Is ``obj`` this item (or one of its parents)?"""
+        v_item = self
+        while v_item is not None:
+            if v_item.h5_object == obj:
+                return True
+            v_item = v_item.parent
+        return False
+
     def identify_object_type(self, *args, **kwargs):
         import h5py._hl
 
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 8e23b34..f4e5cbd 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -119,8 +119,11 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object[child_name]
-        v_sub_item = validator.addresses[v_item.h5_address.rstrip("/") + "/" + child_name]
+        address = v_item.h5_address.rstrip("/") + "/" + child_name
+        v_sub_item = validator.addresses.get(address)
+        if v_sub_item is None:
+            continue  # link could not be followed
+        obj = v_sub_item.h5_object
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From ac7dc0723d6d5f0e35372a8acbbbce9c76988288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 04/48] fix: validate attributes with unexpected types, values,
 or locations

Attributes @signal, @axes, @default, @target, and @NX_class raised various
exceptions when not (scalar) text, when used with a field, with text which
names nothing (or is not a simple name), or with '@' in a group name.
Broken links are not existing targets.
---
 punx/utils.py                                 | 25 ++++++++++++++++++-
 punx/validations/attribute.py                 | 24 ++++++++++++------
 punx/validations/default_plot.py              | 23 ++++++++++-------
 .../hdf5_group_items_in_base_class.py         | 15 +++++------
 punx/validations/item_name.py                 |  4 +--
 5 files changed, 64 insertions(+), 27 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index e99a005..2bd6042 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -13,6 +13,8 @@ utility routines
 .. autosummary::
 
    ~decode_byte_string
+   ~text_value
+   ~child_in_group
    ~isHdf5FileObject
    ~isHdf5Group
    ~isHdf5Dataset
@@ -69,6 +71,27 @@ def _decode_text(value):
         return str(value)
 
 
+def text_value(value):
+    """Return ``value`` (of an attribute that should be text) as ``str``.
+
+    The only item of an array is returned as if it were a scalar.
+    """
+    value = decode_byte_string(value)
+    if isinstance(value, numpy.ndarray):
+        value = value.tolist()
+    if isinstance(value, list) and len(value) == 1:
+        value = value[0]
+    return str(value)
+
+
+def child_in_group(group, path):
+    """Does HDF5 ``path`` (text from an attribute) exist in ``group``?"""
+    try:
+        return isinstance(group, h5py.Group) and group.get(path) is not None
+    except (OSError, RuntimeError, ValueError):
+        return False  # such as: text which cannot be an HDF5 path
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
@@ -159,7 +182,7 @@ def isNeXusDataset(obj):
 
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
-    target = decode_byte_string(obj.attrs.get("target", ""))
+    target = text_value(obj.attrs.get("target", ""))
     return len(target) > 0 and target != obj.name
 
 
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..801cd63 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -9,6 +9,7 @@
 # -----------------------------------------------------------------------------
 
 import numpy
+import re
 
 from .. import finding, utils
 from . import item_name
@@ -24,6 +25,8 @@ def verify(validator, v_item):
         return
     if v_item.h5_address.find("@") < 0:
         return
+    if hasattr(v_item.h5_object, "attrs") and "@" not in v_item.name:
+        return  # group or field, below a group with "@" in its name
 
     handler = HANDLER_DICT.get(v_item.name) or generic_handler
     handler(validator, v_item)
@@ -63,7 +66,13 @@ def axes_handler(validator, v_item):
     if not isinstance(axes_attr, (list, numpy.ndarray)):
         axes_attr = [axes_attr]  # ensure it is array
 
-    for axis_name in axes_attr:
+    h5parent = v_item.parent.h5_object
+    if utils.isNeXusDataset(h5parent):
+        # names the fields (of the same group), one text with delimiters
+        h5parent = v_item.parent.parent.h5_object
+        axes_attr = re.split("[:,]", utils.text_value(v_item.h5_object).strip("[] "))
+
+    for axis_name in map(utils.text_value, axes_attr):
         # check each value of array that is a validItemName
         k = item_name.validItemName_match_key(validator, axis_name)
         test_name = f"valid name @axes['{axis_name}']"
@@ -79,8 +88,7 @@ def axes_handler(validator, v_item):
 
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
-        h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if utils.child_in_group(h5parent, axis_name):
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -94,7 +102,7 @@ def axes_handler(validator, v_item):
 
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
-    nx_class = utils.decode_byte_string(v_item.h5_object)
+    nx_class = utils.text_value(v_item.h5_object)
     nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
         c = "not a recognized NXDL class: " + nx_class
@@ -118,10 +126,10 @@ def signal_handler(validator, v_item):
     (to mark the field as plottable data) or a group (to name
     the child field that is the plottable data).
     """
-    signal = utils.decode_byte_string(v_item.h5_object)
+    signal = utils.text_value(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
         if (
-            str(signal).isdigit() and int(signal) == 1
+            signal.isdecimal() and int(signal) == 1
         ):  # could error if signal is other text!
             status = finding.OK
             c = "found plottable data marker"
@@ -142,7 +150,7 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = utils.child_in_group(v_item.parent.h5_object, signal)
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
         c += ": @signal=" + signal
@@ -153,7 +161,7 @@ def signal_handler(validator, v_item):
 
 def target_handler(validator, v_item):
     """validate @target"""
-    target = utils.decode_byte_string(v_item.h5_object)
+    target = utils.text_value(v_item.h5_object)
 
     if not target.startswith("/"):
         status = finding.ERROR
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 6530e77..04261e1 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -69,7 +69,7 @@ def default_plot_v3(validator):
             addr = v_item.h5_address
         if not addr.endswith("/"):
             addr += "/"
-        addr += utils.decode_byte_string(pointer)
+        addr += utils.text_value(pointer)
         return addr
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
@@ -78,22 +78,26 @@ def default_plot_v3(validator):
         if pointer is None:
             return False
         addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
+        if not utils.child_in_group(v_item.h5_object, utils.text_value(pointer)):
             return False
         return v_target == addr
 
     test_name = "NeXus default plot v3"
-    short_list = list(validator.classpaths.get("/NXentry/NXdata@signal", []))
+    short_list = [
+        v_item
+        for v_item in validator.classpaths.get("/NXentry/NXdata@signal", [])
+        if v_item.name == "signal"  # and not some HDF5 object with such a name
+        and getattr(v_item.parent, "nx_class", None) == "NXdata"
+    ]
     # TODO: why not look at every NXdata@signal?
 
     h5_address = None
     niac2014_path = []
     for v_item in short_list:
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
-        nxroot = validator.addresses["/"]
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
+        nxroot = nxentry.parent
         signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
         t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
         t2 = attribute_points_at_target(nxentry, "default", nxdata.h5_address)
@@ -103,7 +107,8 @@ def default_plot_v3(validator):
             c = "field described by @signal does not exist"
             validator.record_finding(v_item, test_name + ", NXdata@signal", status, c)
             return None  # fail to identify as plottable since @signal is misleading
-        t4 = utils.isNeXusDataset(validator.addresses[signal_h5_addr].h5_object)
+        signal = utils.text_value(nxdata.h5_object.attrs["signal"])
+        t4 = utils.isNeXusDataset(nxdata.h5_object[signal])
         if t3 and t4:
             status = finding.OK
             c = "correct default plot setup in /NXentry/NXdata"
@@ -136,7 +141,7 @@ def default_plot_v2(validator):
         if k.endswith("@signal"):
             for v_item in v:
                 if utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
+                    signal = utils.text_value(v_item.h5_object)
                     if signal == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index f4e5cbd..8b9bc4c 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = utils.child_in_group(v_item.h5_object, v)
     if found:
         status = finding.OK
         c = "found"
@@ -51,6 +51,7 @@ def verify_group_attributes(validator, v_item, base_class):
     for k, v in sorted(v_item.h5_object.attrs.items()):
         k = utils.decode_byte_string(k)
         v = utils.decode_byte_string(v)
+        text = utils.text_value(v)
         known = k in base_class.attributes
         status = finding.OK
         c = "known"
@@ -67,13 +68,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = text in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += ": " + text
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -87,22 +88,22 @@ def verify_group_attributes(validator, v_item, base_class):
             "/NXentry/NXsubentry",
         ):
             test_name = "value of @default"
-            child_exists(validator, test_name, v, v_item, a_item)
+            child_exists(validator, test_name, text, v_item, a_item)
 
         elif k == "signal":
             test_name = "value of @signal"
-            child_exists(validator, test_name, v, v_item, a_item)
+            child_exists(validator, test_name, text, v_item, a_item)
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = text in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += ": " + v_item.h5_address + "/@target = " + text
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index a2ab9e4..984916f 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -35,7 +35,7 @@ def isNeXusLinkTarget(v_item):
     """
     if "target" in v_item.h5_object.attrs:
         source_name = utils.decode_byte_string(v_item.h5_object.name)
-        target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
+        target_name = utils.text_value(v_item.h5_object.attrs["target"])
         return target_name != source_name
     return False  # no @target attribute at all
 
@@ -111,7 +111,7 @@ def handle_NX_class(validator, v_item):
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile("^" + p + "$")
-        s = utils.decode_byte_string(v_item.h5_object)
+        s = utils.text_value(v_item.h5_object)
         m = validator.regexp_cache[k].match(s)
         matches = m is not None and m.string == s
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
-- 
2.43.0


From da9852d565c350ce3792ce5c888b715b18d3a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 05/48] fix: validate files with names that are not valid UTF-8

h5py reports such names as bytes; mixing with text raised TypeError.
---
 punx/utils.py                                      | 12 ++++++++++++
 punx/validate.py                                   |  6 ++++--
 punx/validations/hdf5_group_items_in_base_class.py |  5 ++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 2bd6042..9ba224d 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -14,6 +14,7 @@ utility routines
 
    ~decode_byte_string
    ~text_value
+   ~sorted_attributes
    ~child_in_group
    ~isHdf5FileObject
    ~isHdf5Group
@@ -84,6 +85,17 @@ def text_value(value):
     return str(value)
 
 
+def sorted_attributes(obj):
+    """Return list of (name, value) of all HDF5 attributes of ``obj``.
+
+    Names which are not valid UTF-8 (h5py reports as bytes) are decoded.
+    """
+    return sorted(
+        ((decode_byte_string(k), v) for k, v in obj.attrs.items()),
+        key=lambda kv: kv[0]
+    )
+
+
 def child_in_group(group, path):
     """Does HDF5 ``path`` (text from an attribute) exist in ``group``?"""
     try:
diff --git a/punx/validate.py b/punx/validate.py
index 1307641..059dbcc 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -283,7 +283,7 @@ class Data_File_Validator(object):
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
-            for k, a in sorted(o.attrs.items()):
+            for k, a in utils.sorted_attributes(o):
                 av = ValidationItem(v, a, attribute_name=k)
                 self.addresses[av.h5_address] = av
                 addClasspath(av)
@@ -291,8 +291,10 @@ class Data_File_Validator(object):
 
         parent = get_subject(parent, group, link_name)
         for item in group:
+            name = item
+            item = utils.decode_byte_string(name)
             try:
-                h5_object = group[item]
+                h5_object = group[name]
             except (KeyError, OSError, RuntimeError) as exc:
                 c = f"cannot read '{item}': {exc}"
                 self.record_finding(parent, f"link '{item}'", finding.WARN, c)
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 8b9bc4c..f12ea1c 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -48,8 +48,7 @@ def verify_group_attributes(validator, v_item, base_class):
         Instance of :class:`~punx.nxdl_manager.NXDL__definition`
         (a class that represents one of the NXDL specifications)
     """
-    for k, v in sorted(v_item.h5_object.attrs.items()):
-        k = utils.decode_byte_string(k)
+    for k, v in utils.sorted_attributes(v_item.h5_object):
         v = utils.decode_byte_string(v)
         text = utils.text_value(v)
         known = k in base_class.attributes
@@ -119,7 +118,7 @@ def verify_group_attributes(validator, v_item, base_class):
 
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
-    for child_name in v_item.h5_object:
+    for child_name in map(utils.decode_byte_string, v_item.h5_object):
         address = v_item.h5_address.rstrip("/") + "/" + child_name
         v_sub_item = validator.addresses.get(address)
         if v_sub_item is None:
-- 
2.43.0


From d0d7cc92714aba80d4b59434a2fcb027b5eca868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 06/48] fix: NX_class naming a contributed application
 definition raised TypeError

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 059dbcc..ed7b63f 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -393,7 +393,7 @@ class Data_File_Validator(object):
             and len(nxdl_def.links) == 0
             and len(nxdl_def.groups) == 1
         ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
+            entry_group = list(nxdl_def.groups.values())[0]
             # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
             # assume OK
             return "definition" not in entry_group.fields
-- 
2.43.0


From 436449cb6c818a33d09f8fd7b20485afd1d4919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 07/48] fix: application definition with missing or unexpected
 fields

Missing fields were reported at a bogus address (/entry@None) and, when
the definition enumerates the values of that field, raised TypeError.
Raised other exceptions when the definition field is empty or names an NXDL
without groups.
---
 punx/validations/application_definition.py | 55 +++++++++++++---------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..962f40b 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,14 +15,27 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_dataset):
+    """
+    Return (first item of) the dataset, as text
+    """
+    try:
+        value = h5_dataset[()]
+    except OSError:
+        return ""  # cannot read the data
+    if isinstance(value, numpy.ndarray):
+        value = value.flat[0] if value.size > 0 else ""
+    return utils.text_value(value)
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
-    ad_name = str(utils.decode_byte_string(item))
+    h5_definition = v_item.h5_object.get("definition")
+    if not utils.isHdf5Dataset(h5_definition):
+        return
+    ad_name = first_value(h5_definition)
     key = "NeXus application definition"
 
     ad = validator.manager.classes.get(ad_name)
@@ -46,30 +59,30 @@ def verify(validator, v_item):
     validator.record_finding(v_item, key, finding.TODO, c)
 
     # TODO: groups, attributes, links, type, ... in separate functions
+    if len(ad.groups) == 0:
+        return  # nothing to compare, not an application definition
     ad_entry = list(ad.groups.values())[
         0
     ]  # only 1 at this level of the application definition (ad)
     for field, spec in ad_entry.fields.items():
 
+        test_name = "NXDL field"
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
-        status = finding.TF_RESULT[h5_obj is not None]
-        if h5_obj is None:
-            msg += " not"
-        msg += " found"
-        v_obj = ValidationItem(v_item, h5_obj)
-        validator.record_finding(v_obj, "NXDL field", status, msg)
+        h5_obj = None
+        if utils.child_in_group(v_item.h5_object, field):
+            h5_obj = v_item.h5_object[field]
+        if not utils.isHdf5Dataset(h5_obj):
+            address = v_item.h5_address + "/" + field
+            f = finding.Finding(address, test_name, finding.ERROR, msg + " not found")
+            validator.validations.append(f)
+            v_item.validations[test_name + " " + field] = f
+            continue
+        v_obj = ValidationItem(v_item, h5_obj, link_name=field)
+        validator.record_finding(v_obj, test_name, finding.OK, msg + " found")
 
         if len(spec.enumerations) > 0:
-            found = False
-            for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
-                if found:
-                    break
-            msg = "%s:%s" % (ad_name, field)
+            value = first_value(h5_obj)
+            found = value in spec.enumerations
             required = (
                 spec.xml_attributes["minOccurs"].default_value == 1
             )  # TODO: is this right?
@@ -79,7 +92,7 @@ def verify(validator, v_item):
                 msg += " (optional)"
             status = finding.TF_RESULT[found]
             if found:
-                msg += " has expected value: " + enum
+                msg += " has expected value: " + value
             else:
                 msg += " does not have value: " + " | ".join(spec.enumerations)
             validator.record_finding(v_obj, "NXDL field enumerations", status, msg)
-- 
2.43.0


From 46fefa1acc7babbd69db3223254acfea7e32193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 08/48] fix: finding_summary() of selected statuses raised
 KeyError

---
 punx/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index ed7b63f..1ff9f31 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -167,7 +167,8 @@ class Data_File_Validator(object):
         for status in report_statuses:
             summary[status] = 0
         for f in self.validations:
-            summary[f.status] += 1
+            if f.status in summary:
+                summary[f.status] += 1
         return summary
 
     def print_report(self, statuses=None):
-- 
2.43.0


From ae16214582c030cec949e8e8faf8d7d02c163438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 09/48] fix: default plot finding depended on previously
 validated files

Once any file with a NXentry group was validated, a file without one
was given a NOTE rather than an ERROR by that same validator.
---
 punx/validations/default_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 04261e1..d440981 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -37,10 +37,10 @@ def verify(validator):
     if status is None:
         c = "no default plot described"
         data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
-        else:
-            minOccurs = 1
+        minOccurs = 1
+        for v_item in validator.addresses.values():
+            if getattr(v_item, "nx_class", None) == "NXentry":
+                minOccurs = int(data_group.attributes.get("minOccurs", 0))
         if minOccurs > 0:
             status = finding.ERROR
         else:
-- 
2.43.0


From 4382079c1112a68e550d552644a90119c60b1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 10/48] fix: item names with trailing newline are not valid

The regular expression $ also matches before a newline at the end.
---
 punx/validations/item_name.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 984916f..9ea0deb 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -110,10 +110,9 @@ def handle_NX_class(validator, v_item):
     status = finding.ERROR
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
         s = utils.text_value(v_item.h5_object)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = validator.regexp_cache[k].fullmatch(s) is not None
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -154,11 +153,10 @@ def validItemName_match_key(validator, text):
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = validator.regexp_cache[k].fullmatch(s) is not None
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 11d90e9d1340467b38c5199577165c450f0dc717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 11/48] fix: defaults of application definitions were applied
 to base classes

All NXDL structures shared the same instances of the schema defaults.
Once any application definition was parsed, every base class and contributed
definition had minOccurs=1 and optional=False, as well.
---
 punx/nxdl_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..87dbe2e 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -203,7 +204,8 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            # make a copy since the value may be changed (such as: minOccurs)
+            self.xml_attributes[k] = copy.copy(v)
 
     def parse_attributes(self, xml_node):
         """
-- 
2.43.0


From 8b321de4d65b55454e79bf2b4931929563bd4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 12/48] fix: application definition fields with minOccurs=0 are
 not required

Absence of an optional field (such as /entry/title in NXmx and
NXtomo) was reported as ERROR.
---
 punx/nxdl_manager.py                       |  5 +++++
 punx/validations/application_definition.py | 12 +++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 87dbe2e..a575e91 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -573,6 +573,7 @@ class NXDL__field(NXDL__base):
         self.attributes = {}
         self.dimensions = None
         self.enumerations = []
+        self.optional = False  # True: NXDL file describes this as optional
 
         self._init_defaults_from_schema(nxdl_defaults)
 
@@ -583,6 +584,10 @@ class NXDL__field(NXDL__base):
     def parse_nxdl_xml(self, xml_node):
         """parse the XML content"""
         self.name = xml_node.attrib["name"]
+        self.optional = xml_node.attrib.get("minOccurs", "").strip() == "0" or any(
+            xml_node.attrib.get(k) in ("true", "yes", "1")
+            for k in ("optional", "recommended")
+        )
 
         self.parse_attributes(xml_node)
 
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 962f40b..41de057 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -73,7 +73,8 @@ def verify(validator, v_item):
             h5_obj = v_item.h5_object[field]
         if not utils.isHdf5Dataset(h5_obj):
             address = v_item.h5_address + "/" + field
-            f = finding.Finding(address, test_name, finding.ERROR, msg + " not found")
+            status = finding.OPTIONAL if spec.optional else finding.ERROR
+            f = finding.Finding(address, test_name, status, msg + " not found")
             validator.validations.append(f)
             v_item.validations[test_name + " " + field] = f
             continue
@@ -83,13 +84,10 @@ def verify(validator, v_item):
         if len(spec.enumerations) > 0:
             value = first_value(h5_obj)
             found = value in spec.enumerations
-            required = (
-                spec.xml_attributes["minOccurs"].default_value == 1
-            )  # TODO: is this right?
-            if required:
-                msg += " (required)"
-            else:
+            if spec.optional:
                 msg += " (optional)"
+            else:
+                msg += " (required)"
             status = finding.TF_RESULT[found]
             if found:
                 msg += " has expected value: " + value
-- 
2.43.0


From 23431b8a1ea4bc67b513717d55ab8f8b2b48797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 13/48] fix: content of a schema depended on schemas which were
 loaded before

All instances of Schema_Root shared the same attrs and children
dictionaries. Only the group element of the first schema was parsed.
---
 punx/schema_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..96fb7c5 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -349,8 +349,6 @@ class Schema_Root(_Mixin):
     :param obj schema_root: optional, instance of lxml.etree._Element
     """
 
-    attrs = {}
-    children = {}
     patterns = None
     type = None
     units = None
@@ -371,6 +369,10 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
+        _GroupParsing().started = False  # each schema has its own group structure
+
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
-- 
2.43.0


From f690b430f3434a0d1e89f932571f1ce6f8c4faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 14/48] fix: validate NXDL files against the XML Schema of
 their own file set

The schema of the default file set was used to read the NXDL files of
any file set.
---
 punx/nxdl_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index a575e91..4d2c07b 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -159,15 +159,18 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, schema=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
     :param str xml_file_name: name of XML file
+    :param obj schema: instance of ``lxml.etree.XMLSchema``,
+        default is the XML Schema of the default file set
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if schema is None:
+        schema = schema_manager.get_default_schema_manager().lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -442,7 +445,8 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            file_set = self.nxdl_manager.nxdl_file_set
+            validate_xml_tree(lxml_tree, file_set.schema_manager.lxml_schema)
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From 5519f3b0bef656d85406e08b70a85a2f7d1abb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 15/48] fix: unknown NXDL file set name raises KeyError

NXDL_Manager() and Data_File_Validator() used the most recent file set instead
of the (unknown) one requested, and also changed the default file set of the
cache manager when asked for any other file set.
---
 punx/nxdl_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 4d2c07b..2dc96f9 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -79,8 +79,7 @@ class NXDL_Manager(object):
             file_set = cm.default_file_set
         elif isinstance(file_set, str):
             cm = cache_manager.CacheManager()
-            cm.select_NXDL_file_set(file_set)
-            file_set = cm.default_file_set
+            file_set = cm.all_file_sets[file_set]
         assert isinstance(file_set, cache_manager.NXDL_File_Set)
 
         if file_set.path is None or not os.path.exists(file_set.path):
-- 
2.43.0


From f9f9709ae102cda7671f0425d02883f79c920751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 16/48] fix: ignore a NXDL file set with unreadable or
 incomplete info file

Any such directory in the user cache (such as from an interrupted download)
raised an exception from every punx command.
---
 punx/cache_manager.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..6ed5d40 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -421,8 +421,13 @@ class Base_Cache(object):
             if os.path.isdir(os.path.join(cache_path, item)):
                 info_file = os.path.join(cache_path, item, INFO_FILE_NAME)
                 if os.path.exists(info_file):
-                    fs[item] = NXDL_File_Set()
-                    fs[item].read_info_file(info_file)
+                    file_set = NXDL_File_Set()
+                    try:
+                        file_set.read_info_file(info_file)
+                    except (OSError, ValueError) as exc:
+                        logger.error("ignoring %s: %s", info_file, exc)
+                        continue
+                    fs[item] = file_set
         return fs
 
     def cleanup(self):
@@ -527,5 +532,8 @@ class NXDL_File_Set(object):
 
         # read the NXDL file set's info file for GitHub information
         obj = read_json_file(file_name)
+        for k in ("ref", "sha", "last_modified"):
+            if not isinstance(obj, dict) or not isinstance(obj.get(k), str):
+                raise ValueError(f"no '{k}' in info file: {file_name}")
         for k in self.json_file_keys:
             self.__setattr__(k, obj.get(k))
-- 
2.43.0


From c4beb06a156591abc6bf4a206c99385e3d04e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 17/48] fix: install only into the user cache directory

A file set name such as '..', '.', or an absolute path could replace the
user cache, or any directory outside of it.
---
 punx/cache_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 6ed5d40..a6f5938 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -179,6 +179,10 @@ def download_file_set(file_set_name, cache_path, replace=False):
 
     """
     NXDL_refs_dir_name = cache_path / file_set_name
+    root = os.path.abspath(cache_path) + os.sep
+    if not os.path.abspath(NXDL_refs_dir_name).startswith(root):
+        raise ValueError(f"file set '{file_set_name}' is not in directory {cache_path}")
+
     print(f"Downloading file set: {file_set_name} to {NXDL_refs_dir_name} ...")
 
     if NXDL_refs_dir_name.exists():
-- 
2.43.0


From 3d8158641b74ffa91a0bd5eb073ff7880c659b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 18/48] fix: failed or interrupted install left a partial file
 set in the cache

The download was extracted directly into the cache, under a different name,
and the existing file set was removed before its replacement was
moved into place.  Now, the new file set is prepared in a staging directory,
which is not listed as a file set, and then renamed.
---
 punx/cache_manager.py | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index a6f5938..7e7d9c0 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -53,6 +53,7 @@ and :mod:`~punx.nxdl_manager`.
    ~is_extractable
    ~download_NeXus_zip_archive
    ~download_file_set
+   ~extract_file_set
    ~table_of_caches
    ~Base_Cache
    ~SourceCache
@@ -68,6 +69,7 @@ import pathlib
 import pyRestTable
 import requests
 import shutil
+import tempfile
 
 from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
@@ -199,10 +201,40 @@ def download_file_set(file_set_name, cache_path, replace=False):
         print(f"Could not download file set: {file_set_name}")
         return
 
+    # Prepare the new file set in a directory that is not (yet) in the cache.
+    os.makedirs(cache_path, exist_ok=True)
+    staging_dir = pathlib.Path(tempfile.mkdtemp(prefix=".install-", dir=cache_path))
+    try:
+        download_path = extract_file_set(
+            zip_content, staging_dir / "new", file_set_name, url
+        )
+
+        # last, move the ``download_path`` directory to ``file_set_name``
+        previous = staging_dir / "previous"
+        NXDL_refs_dir_name.parent.mkdir(parents=True, exist_ok=True)
+        if NXDL_refs_dir_name.exists():
+            os.rename(NXDL_refs_dir_name, previous)
+        try:
+            os.rename(download_path, NXDL_refs_dir_name)
+        except BaseException:
+            if previous.exists():
+                os.rename(previous, NXDL_refs_dir_name)
+            raise
+    finally:
+        shutil.rmtree(staging_dir, ignore_errors=True)
+    print(f"Installed in directory: {NXDL_refs_dir_name}")
+
+
+def extract_file_set(zip_content, path, file_set_name, url):
+    """
+    Extract the NXDL files from ``zip_content`` into a subdirectory of ``path``.
+
+    Return the name of the subdirectory.
+    """
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
+    download_path = path / zip_content.filelist[0].filename.split("/")[0]
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
@@ -210,7 +242,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
     dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
     for item in zip_content.namelist():
         if is_extractable(item, NXDL_file_endings_list, allowed_parents):
-            zip_content.extract(item, cache_path)
+            zip_content.extract(item, path)
             dt = max(zip_content.getinfo(item).date_time, dt)
             item_count += 1
             print(f"{item_count} Extracted: {item}")
@@ -235,11 +267,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
     write_json_file(infofile, info)
     print(f"Created: {infofile}")
 
-    # last, rename the ``download_path`` directory to ``file_set_name``
-    if NXDL_refs_dir_name.exists():
-        shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-    shutil.move(download_path, NXDL_refs_dir_name)
-    print(f"Installed in directory: {NXDL_refs_dir_name}")
+    return download_path
 
 
 def table_of_caches():
-- 
2.43.0


From 0395619640a0f291d59bce96f5b5430abb4638dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 19/48] fix: tree of a file with links back to a parent group
 raised RecursionError

---
 punx/h5tree.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..310bd32 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,7 +87,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, parents=()):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -99,6 +99,8 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        parents : tuple
+            Groups (instances of ``h5py.Group``) which contain this group.
         """
         s = []
         nxclass = obj.attrs.get("NX_class", "")
@@ -148,7 +150,11 @@ class Hdf5TreeView(object):
                                 s += [self._renderSingleAttribute(indentation + "  ", nm, v)]
             else:
                 value = obj.get(itemname)
-                if utils.isNeXusLink(value):
+                container = [g for g in (*parents, obj) if g == value]
+                if len(container) > 0:
+                    # links back to a group which contains this link
+                    s += ["%s  %s --> %s" % (indentation, itemname, container[0].name)]
+                elif utils.isNeXusLink(value):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
                     groups.append((value, itemname, link_info))
@@ -170,7 +176,9 @@ class Hdf5TreeView(object):
                     raise Exception(msg)
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            g = self._renderGroup(
+                value, itemname, indentation + "  ", md, (*parents, obj)
+            )
             s += g
 
         return s
-- 
2.43.0


From e3ea45356c0e7bb647b776d308867d9df3f49aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 20/48] fix: tree reports external links as HDF5 resolves them

External files were searched for in the current working directory
instead of relative to the file with the link.  Broken links to an external
file which is not HDF5 raised OSError.
---
 punx/h5tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 310bd32..470e07b 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -123,9 +123,10 @@ class Hdf5TreeView(object):
             link_info = obj.get(itemname, getlink=True)
             # prevent fails of obj.get(itemname, getclass=True)
             # for external links if file is not available
+            # (HDF5 knows how to find the file, relative to this file)
             if (
                 isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
+                and not utils.child_in_group(obj, itemname)
             ):
                 classref = None
                 logger.debug(
-- 
2.43.0


From 82e82d5f954d7423ad6e13dcdd779ae5fb54c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 21/48] fix: tree of files with unexpected NX_class, names,
 data, or datatypes raised exceptions

---
 punx/h5tree.py | 45 +++++++++++++++++++++++++++++----------------
 punx/utils.py  | 24 +++++++++++++++++++++---
 2 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 470e07b..9b9042d 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -103,13 +103,13 @@ class Hdf5TreeView(object):
             Groups (instances of ``h5py.Group``) which contain this group.
         """
         s = []
-        nxclass = obj.attrs.get("NX_class", "")
-        if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
-                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
+        nxclass = utils.decode_byte_string(obj.attrs.get("NX_class", ""))
+        if isinstance(nxclass, list):  # attribute reported as DATATYPE SIMPLE
+            nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
+        if isinstance(nxclass, str) and len(nxclass) > 0:
+            nxclass = ":" + nxclass
+        else:
+            nxclass = ""
         s += [indentation + name + nxclass]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
@@ -119,14 +119,15 @@ class Hdf5TreeView(object):
 
         # show datasets and links next
         groups = []
-        for itemname in sorted(obj):
-            link_info = obj.get(itemname, getlink=True)
+        for h5name in sorted(obj, key=utils.decode_byte_string):
+            itemname = utils.decode_byte_string(h5name)
+            link_info = utils.link_in_group(obj, h5name)
             # prevent fails of obj.get(itemname, getclass=True)
             # for external links if file is not available
             # (HDF5 knows how to find the file, relative to this file)
             if (
                 isinstance(link_info, h5py.ExternalLink)
-                and not utils.child_in_group(obj, itemname)
+                and not utils.child_in_group(obj, h5name)
             ):
                 classref = None
                 logger.debug(
@@ -137,7 +138,7 @@ class Hdf5TreeView(object):
                 classref = None
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
             else:
-                classref = obj.get(itemname, getclass=True)
+                classref = type(obj[h5name])
 
             if classref is None:
                 if isinstance(link_info, h5py.SoftLink):
@@ -150,7 +151,7 @@ class Hdf5TreeView(object):
                             if v is not None:
                                 s += [self._renderSingleAttribute(indentation + "  ", nm, v)]
             else:
-                value = obj.get(itemname)
+                value = obj[h5name]
                 container = [g for g in (*parents, obj) if g == value]
                 if len(container) > 0:
                     # links back to a group which contains this link
@@ -160,13 +161,21 @@ class Hdf5TreeView(object):
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
                     groups.append((value, itemname, link_info))
                 elif utils.isHdf5Dataset(value):
-                    s += self._renderDataset(value, itemname, indentation + "  ")
+                    try:
+                        s += self._renderDataset(value, itemname, indentation + "  ")
+                    except OSError as exc:
+                        txt = f"{itemname}:{value.dtype} = cannot read data: {exc}"
+                        s += [indentation + "  " + txt]
+                        s += self._renderAttributes(value, indentation + "  ")
                     if self.show_attributes and utils.isHdf5ExternalLink(
                         obj, link_info
                     ):  # TODO: is obj the "parent"
                         # When "classref" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
+                elif isinstance(value, h5py.Datatype):
+                    s += [f"{indentation}  {itemname}:datatype = {value.dtype}"]
+                    s += self._renderAttributes(value, indentation + "  ")
                 else:
                     msg = (
                         "unidentified %s: %s, %s",
@@ -185,6 +194,7 @@ class Hdf5TreeView(object):
         return s
 
     def _renderSingleAttribute(self, indentation, name, value):
+        name = utils.decode_byte_string(name)
         value = utils.decode_byte_string(value)
         # Wrap str and list of str in double quotes.
         if isinstance(value, list) and isinstance(value[0], str):
@@ -206,7 +216,7 @@ class Hdf5TreeView(object):
 
     def _renderLinkedObject(self, obj, name, indentation="  "):
         """return a [formatted_string] with the name and target of a NeXus linked object"""
-        target_addr = utils.decode_byte_string(obj.attrs["target"])
+        target_addr = utils.text_value(obj.attrs["target"])
         s = []
         s.append(f"{indentation}{name} --> {target_addr}")
         return s
@@ -217,15 +227,18 @@ class Hdf5TreeView(object):
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if self.isNeXus:
             if "target" in dset.attrs:
-                target_addr = utils.decode_byte_string(dset.attrs["target"])
+                target_addr = utils.text_value(dset.attrs["target"])
                 if target_addr != dset.name:
                     return self._renderLinkedObject(dset, name, indentation)
+        if shape is None:  # HDF5 null dataspace, no data
+            s = [f"{indentation}{name}:{dset.dtype} = NULL"]
+            return s + self._renderAttributes(dset, indentation)
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
         if dset.dtype.kind == "S":
             if isinstance(dset[()], numpy.ndarray):
-                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
+                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()].flat]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
                 else:
diff --git a/punx/utils.py b/punx/utils.py
index 9ba224d..4c0db43 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -16,6 +16,7 @@ utility routines
    ~text_value
    ~sorted_attributes
    ~child_in_group
+   ~link_in_group
    ~isHdf5FileObject
    ~isHdf5Group
    ~isHdf5Dataset
@@ -104,6 +105,23 @@ def child_in_group(group, path):
         return False  # such as: text which cannot be an HDF5 path
 
 
+def link_in_group(group, name):
+    """Return the HDF5 link (instance of h5py link classes) in ``group``.
+
+    Names which are not valid UTF-8 (h5py reports as bytes) are possible.
+    """
+    if not isinstance(name, bytes):
+        return group.get(name, getlink=True)
+
+    links = group.id.links
+    link_type = links.get_info(name).type
+    if link_type == h5py.h5l.TYPE_SOFT:
+        return h5py.SoftLink(decode_byte_string(links.get_val(name)))
+    if link_type == h5py.h5l.TYPE_EXTERNAL:
+        return h5py.ExternalLink(*map(decode_byte_string, links.get_val(name)))
+    return h5py.HardLink()
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
@@ -171,8 +189,8 @@ def isNeXusFile(filename):
                 try:
                     if isNeXusGroup(root[item], "NXentry"):
                         return True
-                except KeyError:
-                    pass
+                except (KeyError, OSError, RuntimeError):
+                    pass  # broken link
     return False
 
 
@@ -182,7 +200,7 @@ def isNeXusGroup(obj, NXtype):
     if isHdf5Group(obj):
         nxclass = obj.attrs.get("NX_class", None)
         if isinstance(nxclass, numpy.ndarray):
-            nxclass = nxclass[0]
+            nxclass = nxclass.flat[0] if nxclass.size > 0 else None
         nxclass = decode_byte_string(nxclass)
     return nxclass == str(NXtype)
 
-- 
2.43.0


From 0b66dba6b07c9bbda17a7ff2a6b766d4e5bcc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 22/48] fix: tree did not show the value of scalar (rank 0)
 datasets

---
 punx/h5tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 9b9042d..1f02724 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -319,6 +319,8 @@ class Hdf5TreeView(object):
         r = ""
         if len(shape) > 0:
             r = self._renderNdArray(obj, indentation + "  ")
+        else:
+            r = str(obj[()])
         return r
 
     def _decideNumShown(self, n):
-- 
2.43.0


From 1f7b535f6618e9bd7af6ec4728de83f5444d59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 23/48] fix: punx tree: exit with error if file is missing or
 is not HDF5

---
 punx/main.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index a6c069a..76ad535 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -168,6 +168,8 @@ def func_tree(args):
             exit_message("File not found: " + args.infile)
         except Exception as exc:
             exit_message(str(exc))
+        if mc.nxdl_file is None:
+            exit_message("File not found: " + args.infile)
         report = mc.report(args.show_attributes)
         print("\n".join(report or ""))
 
@@ -176,14 +178,13 @@ def func_tree(args):
 
         try:
             mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
-        except FileNotFound:
-            exit_message("File not found: " + args.infile)
-        mc.array_items_shown = args.max_array_items
-        try:
+            mc.array_items_shown = args.max_array_items
             report = mc.report(args.show_attributes)
-        except HDF5_Open_Error:
+        except (HDF5_Open_Error, OSError):
             exit_message("Could not open as HDF5: " + args.infile)
-        print("\n".join(report or ""))
+        if report is None:
+            exit_message("File not found: " + args.infile)
+        print("\n".join(report))
 
 
 def func_validate(args):
-- 
2.43.0


From d5db934969d996782e97a3f1f884ef9c64111d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 24/48] fix: exceptions raised by punx were not caught, two
 copies of the same exception classes

---
 punx/cache_manager.py | 2 +-
 punx/main.py          | 4 ++--
 punx/nxdl_manager.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 7e7d9c0..dec4884 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -75,7 +75,7 @@ from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
 from requests.packages.urllib3.exceptions import InsecureRequestWarning
 
-from .__init__ import __settings_organization__, __settings_package__
+from . import __settings_organization__, __settings_package__
 from . import singletons
 from . import utils
 
diff --git a/punx/main.py b/punx/main.py
index 76ad535..74b13db 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -72,8 +72,8 @@ logging.basicConfig(
 )
 
 
-from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from . import __version__, __package_name__, __url__
+from . import FileNotFound, HDF5_Open_Error, SchemaNotFound
 from . import finding
 from . import utils
 
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 2dc96f9..c5417e1 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -33,7 +33,7 @@ import copy
 import lxml.etree
 import os
 
-from .__init__ import FileNotFound, InvalidNxdlFile
+from . import FileNotFound, InvalidNxdlFile
 from . import nxdl_schema
 from . import cache_manager
 from . import utils
-- 
2.43.0


From cf7b21f88b8c0aafc17583aefda859a20ef6a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 25/48] fix: punx validate of a NXDL file raised AttributeError

---
 punx/main.py     | 18 +++++++++++-------
 punx/validate.py | 26 +++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index 74b13db..4e2abef 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -73,7 +73,7 @@ logging.basicConfig(
 
 
 from . import __version__, __package_name__, __url__
-from . import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -195,12 +195,6 @@ def func_validate(args):
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
     file_sets = list(cm.all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
@@ -208,6 +202,16 @@ def func_validate(args):
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        try:
+            validate.validate_xml(args.infile, args.file_set_name)
+        except FileNotFound:
+            exit_message("File not found: " + args.infile)
+        except InvalidNxdlFile as exc:
+            exit_message(f"{args.infile} is not a valid NXDL file: {exc}")
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
diff --git a/punx/validate.py b/punx/validate.py
index 1ff9f31..2749310 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -20,6 +20,7 @@ PUBLIC
 .. autosummary::
 
    ~Data_File_Validator
+   ~validate_xml
 
 INTERNAL
 
@@ -32,10 +33,12 @@ INTERNAL
 import collections
 import h5py
 import logging
+import lxml.etree
 import os
 import pyRestTable
 
-from . import FileNotFound, HDF5_Open_Error
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile
+from . import cache_manager
 from . import finding
 from . import utils
 from . import nxdl_manager
@@ -48,6 +51,27 @@ VALIDITEMNAME_STRICT_PATTERN = r"[a-z_][a-z0-9_]*"
 logger = utils.setup_logger(__name__)
 
 
+def validate_xml(xml_file_name, ref=None):
+    """
+    validate an NXDL XML file against the XML Schema of a NXDL file set
+
+    :param str xml_file_name: name of XML file
+    :param str ref: name of NXDL file set, default is the default file set
+    :raises FileNotFound: if the file does not exist
+    :raises InvalidNxdlFile: if the file is not valid (or not XML)
+    """
+    if not os.path.exists(xml_file_name):
+        raise FileNotFound(xml_file_name)
+
+    cm = cache_manager.CacheManager()
+    file_set = cm.default_file_set if ref is None else cm.all_file_sets[ref]
+    try:
+        xml_tree = lxml.etree.parse(xml_file_name)
+    except (IOError, lxml.etree.XMLSyntaxError) as exc:
+        raise InvalidNxdlFile(exc)
+    nxdl_manager.validate_xml_tree(xml_tree, file_set.schema_manager.lxml_schema)
+
+
 class Data_File_Validator(object):
 
     """
-- 
2.43.0


From 05f58742e8b686ad83ac7db07feaf3945b75ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 26/48] fix: punx demo used a file set which might not be
 installed

---
 punx/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index 4e2abef..a0d7152 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -134,7 +134,7 @@ def func_demo(args):
     print("")
     print("console> punx validate " + args.infile)
     args.report = ",".join(sorted(finding.VALID_STATUS_DICT.keys()))
-    args.file_set_name = cache_manager.GITHUB_NXDL_BRANCH
+    args.file_set_name = cache_manager.CacheManager().default_file_set.ref
     func_validate(args)
     del args.report
 
-- 
2.43.0


From 974452d92f7423eb797e6c9b0de352e2774246b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 27/48] fix: printing text not supported by the terminal
 encoding raised UnicodeEncodeError

---
 punx/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/punx/main.py b/punx/main.py
index a0d7152..f2d0ca4 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -437,6 +437,9 @@ def parse_command_line_arguments():
 
 
 def main():
+    if hasattr(sys.stdout, "reconfigure"):
+        # the terminal encoding might not support all text in the files
+        sys.stdout.reconfigure(errors="backslashreplace")
     print("\n!!! WARNING: this program is not ready for distribution.\n")
     args = parse_command_line_arguments()
     if not hasattr(args, "func"):
-- 
2.43.0


From e3805be65636676be4a90cc5c3a4920de5e7447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 28/48] fix: tree shows values of variable-length strings as
 text

---
 punx/h5tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 1f02724..4f11e71 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -236,7 +236,7 @@ class Hdf5TreeView(object):
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
-        if dset.dtype.kind == "S":
+        if dset.dtype.kind == "S" or h5py.check_string_dtype(dset.dtype):
             if isinstance(dset[()], numpy.ndarray):
                 ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()].flat]
                 if len(ss) > 1:
-- 
2.43.0


From 7a5c0becb23299be1f9ce1430ff3e106b4e4f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:22 +0000
Subject: [PATCH 29/48] fix: interrupted update could lose the previous file
 set

---
 punx/cache_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index dec4884..3b1d549 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -212,12 +212,12 @@ def download_file_set(file_set_name, cache_path, replace=False):
         # last, move the ``download_path`` directory to ``file_set_name``
         previous = staging_dir / "previous"
         NXDL_refs_dir_name.parent.mkdir(parents=True, exist_ok=True)
-        if NXDL_refs_dir_name.exists():
-            os.rename(NXDL_refs_dir_name, previous)
         try:
+            if NXDL_refs_dir_name.exists():
+                os.rename(NXDL_refs_dir_name, previous)
             os.rename(download_path, NXDL_refs_dir_name)
         except BaseException:
-            if previous.exists():
+            if previous.exists() and not NXDL_refs_dir_name.exists():
                 os.rename(previous, NXDL_refs_dir_name)
             raise
     finally:
-- 
2.43.0


From 3159c9ae116ca9c9c68e1453d1a685fefb8137ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 30/48] fix: units of newer NXDL file sets were not known

---
 punx/schema_manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 96fb7c5..b17a4a2 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -195,7 +195,8 @@ class SchemaManager(object):
                     db[obj.name] = obj
 
         # re-arrange
-        units = list(db["anyUnitsAttr"].values or [])
+        any_units = db["anyUnitsAttr"]
+        units = list(any_units.values or any_units.union or [])
         del db["anyUnitsAttr"]
         del db["primitiveType"]
 
@@ -235,7 +236,7 @@ class Schema_nxdlType(object):
             elif node.tag.endswith("}annotation"):
                 pass
             elif node.tag.endswith("}list"):
-                self.values = map(strip_ns, [node.attrib["itemType"]])
+                self.values = [strip_ns(node.attrib["itemType"])]
             elif node.tag.endswith("}restriction"):
                 self.restriction = strip_ns(node.attrib["base"])
                 self.values = []
@@ -245,7 +246,7 @@ class Schema_nxdlType(object):
                     elif subnode.tag.endswith("}enumeration"):
                         self.values.append(subnode.attrib["value"])
             elif node.tag.endswith("}union"):
-                self.union = map(strip_ns, node.attrib["memberTypes"].split())
+                self.union = list(map(strip_ns, node.attrib["memberTypes"].split()))
             else:
                 raise_error(node, "unhandled tag=", node.tag)
 
-- 
2.43.0


From 92fdeeff7aaab6f9b807fef296c0930f30e715d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 31/48] fix: schema had only the first attribute of the NXDL
 dim element

---
 punx/schema_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index b17a4a2..e9f574a 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -499,10 +499,8 @@ class Schema_Element(_Mixin):
         if ref is None:
             for node in xml_obj:
                 if node.tag.endswith("}complexType"):
-                    a = Schema_Attribute(
-                        node.find("xs:attribute", self.ns), schema_root=self.lxml_root
-                    )
-                    self.attrs[a.name] = a
+                    for attr_node in node.findall("xs:attribute", self.ns):
+                        self.parse_attribute(attr_node)
                 elif node.tag.endswith("}annotation"):
                     pass
                 else:
-- 
2.43.0


From 11250fa9c5e6e1f83bbd08ce67f7292307e64c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 32/48] fix: schema lost the attributes of the group element if
 the NXDL has a choice element

---
 punx/schema_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index e9f574a..d7f391a 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -508,19 +508,24 @@ class Schema_Element(_Mixin):
         else:
             # avoid known infinite recursion: group may contain group(s)
             ok_to_parse = True
-            if (
+            is_group = (
                 xml_obj.attrib["name"] == "group"
                 and xml_obj.attrib["type"] == "nx:groupType"
-            ):
+            )
+            if is_group:
                 if _GroupParsing().started:
                     ok_to_parse = False
                     # needs a special code to apply this rule
                     #     isinstance(obj, _Recursion)
                     self.children["group"] = _Recursion("group")
-                _GroupParsing().started = True
+                else:
+                    _GroupParsing().started = True
             if ok_to_parse:
                 type_obj = Schema_Type(ref, schema_root=self.lxml_root)
                 type_obj.copy_to(self)
+                if is_group:
+                    # only a group within this group is a recursion
+                    _GroupParsing().started = False
 
 
 class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
-- 
2.43.0


From c73ab12e12d9bf9b55e49b4a1dc51781df8dd5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 33/48] fix: traceback instead of a message when a NXDL tree
 has no XSLT

---
 punx/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index f2d0ca4..e1fdba2 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -164,13 +164,13 @@ def func_tree(args):
 
         try:
             mc = nxdltree.NxdlTreeView(os.path.abspath(args.infile))
+            if mc.nxdl_file is None:
+                exit_message("File not found: " + args.infile)
+            report = mc.report(args.show_attributes)
         except FileNotFound:
             exit_message("File not found: " + args.infile)
         except Exception as exc:
             exit_message(str(exc))
-        if mc.nxdl_file is None:
-            exit_message("File not found: " + args.infile)
-        report = mc.report(args.show_attributes)
         print("\n".join(report or ""))
 
     else:
-- 
2.43.0


From 0984bb3b1817a2758062679a339ee328f8111efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:42 +0000
Subject: [PATCH 34/48] fix: user file set was listed as source if its path has
 'punx/cache' in it

---
 punx/cache_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 3b1d549..f3cd2ee 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -557,7 +557,9 @@ class NXDL_File_Set(object):
 
         self.info = file_name
         self.path = os.path.abspath(os.path.dirname(file_name))
-        if self.path.find(os.path.join("punx", "cache")) > 0:
+        source_path = os.path.dirname(os.path.abspath(__file__))
+        source_path = os.path.join(source_path, SOURCE_CACHE_SUBDIR)
+        if os.path.dirname(self.path) == source_path:
             self.cache = "source"
         else:
             self.cache = "user"
-- 
2.43.0


From 37842e2dc8ef782ddb6950a744190e8f35fd7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:45 +0000
Subject: [PATCH 35/48] fix: comments and processing instructions in schema and
 symbols ended in a traceback

---
 punx/nxdl_manager.py   |  2 +-
 punx/nxdl_schema.py    |  2 +-
 punx/schema_manager.py | 22 +++++++++++-----------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index c5417e1..2aab701 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -692,7 +692,7 @@ class NXDL__symbols(NXDL__base):
 
     def parse_nxdl_xml(self, symbols_node):
         """parse the XML content"""
-        for node in symbols_node:
+        for node in symbols_node.iterchildren("*"):
             if isinstance(node, lxml.etree._Comment):
                 continue
 
diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 55112d6..4eb4dd5 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -272,7 +272,7 @@ class NXDL_schema__complexType(NXDL_schema__Mixin):
     def _parse_complexContent(self, xml_node, catalog):
         """parse a xs:complexContent node"""
         assert xml_node.tag.endswith("}complexContent")
-        self._parse_extension(xml_node[0], catalog)
+        self._parse_extension(next(xml_node.iterchildren("*")), catalog)
 
     def _parse_element(self, xml_node, catalog):
         """parse a xs:element node"""
diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index d7f391a..b37148c 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -145,7 +145,7 @@ class SchemaManager(object):
                 assert len(subnodes) == 1
                 obj.base = strip_ns(subnodes[0].attrib["base"])
 
-                for item in subnodes[0]:
+                for item in subnodes[0].iterchildren("*"):
                     if isinstance(item, lxml.etree._Comment):
                         pass
                     elif item.tag.endswith("}pattern"):
@@ -184,7 +184,7 @@ class SchemaManager(object):
 
         db = {}
         root = lxml_types_tree.getroot()
-        for node in root:
+        for node in root.iterchildren("*"):
             if isinstance(node, lxml.etree._Comment):
                 pass
             elif node.tag.endswith("}annotation"):
@@ -230,7 +230,7 @@ class Schema_nxdlType(object):
         self.schema_root = schema_root
         self.attrs = {}
 
-        for node in xml_obj:
+        for node in xml_obj.iterchildren("*"):
             if isinstance(node, lxml.etree._Comment):
                 pass
             elif node.tag.endswith("}annotation"):
@@ -240,7 +240,7 @@ class Schema_nxdlType(object):
             elif node.tag.endswith("}restriction"):
                 self.restriction = strip_ns(node.attrib["base"])
                 self.values = []
-                for subnode in node:
+                for subnode in node.iterchildren("*"):
                     if isinstance(subnode, lxml.etree._Comment):
                         pass
                     elif subnode.tag.endswith("}enumeration"):
@@ -311,7 +311,7 @@ class _Mixin(object):
 
     def parse_complexContent(self, node):
         """ """
-        for subnode in node:
+        for subnode in node.iterchildren("*"):
             if subnode.tag.endswith("}extension"):
                 ref = subnode.attrib.get("base")
                 if ref not in ("nx:basicComponent"):
@@ -320,7 +320,7 @@ class _Mixin(object):
                 obj.copy_to(self)
 
                 # parse children of extension node
-                for obj_node in subnode:
+                for obj_node in subnode.iterchildren("*"):
                     if obj_node.tag.endswith("}annotation"):
                         pass
                     elif obj_node.tag.endswith("}attribute"):
@@ -383,7 +383,7 @@ class Schema_Root(_Mixin):
         ref = strip_ns(element_type)
         type_node = self.get_named_node("complexType", "name", ref)
 
-        for node in type_node:
+        for node in type_node.iterchildren("*"):
             if node.tag.endswith("}attribute"):
                 obj = Schema_Attribute(node, schema_root=self.lxml_root)
                 self.attrs[obj.name] = obj
@@ -406,7 +406,7 @@ class Schema_Root(_Mixin):
         """
         parse the sequence used in the root element
         """
-        for node in seq_node:
+        for node in seq_node.iterchildren("*"):
             if node.tag.endswith("}element"):
                 obj = Schema_Element(node, schema_root=self.lxml_root)
                 self.children[obj.name] = obj
@@ -497,7 +497,7 @@ class Schema_Element(_Mixin):
         # read & analyze theNXDL structural *type* referenced by *ref*
         ref = self.type = xml_obj.attrib.get("type")
         if ref is None:
-            for node in xml_obj:
+            for node in xml_obj.iterchildren("*"):
                 if node.tag.endswith("}complexType"):
                     for attr_node in node.findall("xs:attribute", self.ns):
                         self.parse_attribute(attr_node)
@@ -553,7 +553,7 @@ class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
         self.attrs = {}
         self.children = {}
 
-        for node in xml_obj:
+        for node in xml_obj.iterchildren("*"):
             if isinstance(node, lxml.etree._Comment):
                 pass
             elif node.tag.endswith("}annotation"):
@@ -573,7 +573,7 @@ class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
 
     def parse_sequence(self, node):
         """ """
-        for subnode in node:
+        for subnode in node.iterchildren("*"):
             if subnode.tag.endswith("}element"):
                 obj = Schema_Element(subnode, schema_root=self.lxml_root)
                 self.children[obj.name] = obj
-- 
2.43.0


From 96c2b6ea35c1a066ceb0186f480bb286d77e6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:45 +0000
Subject: [PATCH 36/48] fix: boolean attribute of the schema: no default was
 not read, default 1 was read as false

---
 punx/schema_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index b37148c..8e80788 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -442,8 +442,8 @@ class Schema_Attribute(_Mixin):
 
         self.type = xml_obj.attrib.get("type", "str")
         defalt = xml_obj.attrib.get("default")
-        if self.type in ("nx:NX_BOOLEAN",):
-            self.default_value = defalt.lower() in ("true", "y", 1)
+        if self.type in ("nx:NX_BOOLEAN",) and defalt is not None:
+            self.default_value = defalt.lower() in ("true", "y", "1")
         else:
             self.default_value = defalt
 
-- 
2.43.0


From b60ed697fab6f59a6bd6e19db989644e755b325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:49 +0000
Subject: [PATCH 37/48] fix: check the name of a group also when a finding of
 one of its links has that name

---
 punx/validations/item_name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9ea0deb..230cf2f 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -68,7 +68,7 @@ def verify(validator, v_item):
         msg = "no name validation on the HDF5 file root node"
         logger.log(INFORMATIVE, msg)
         return
-    if v_item.name in v_item.validations:
+    if TEST_NAME in v_item.validations:
         return  # do not repeat this
 
     if v_item.h5_address is not None and v_item.h5_address.endswith("@NX_class"):
-- 
2.43.0


From 62c315515fa8162f88f52708e8fac2fc2b6d4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:28 +0000
Subject: [PATCH 38/48] fix: install reports the default file set as of after
 the installation

---
 punx/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/main.py b/punx/main.py
index e1fdba2..0df8718 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -264,6 +264,7 @@ def func_install(args):
         )
 
     print(cm.table_of_caches())
+    cm.select_NXDL_file_set()  # could be one of those just installed
     print(f"default file set: {cm.default_file_set.ref}")
 
 
-- 
2.43.0


From de7c689cd6bfcadd3067361cd4cd2ece78833559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:50 +0000
Subject: [PATCH 39/48] fix: a NXDL file set is known by the name of its
 directory

---
 punx/cache_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index f3cd2ee..9159c78 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -459,6 +459,7 @@ class Base_Cache(object):
                     except (OSError, ValueError) as exc:
                         logger.error("ignoring %s: %s", info_file, exc)
                         continue
+                    file_set.ref = item  # known by the name of its directory
                     fs[item] = file_set
         return fs
 
-- 
2.43.0


From ffb7abc4689b913021dfef26535e7b4343d0ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:32 +0000
Subject: [PATCH 40/48] fix: a restriction of a restricted type keeps its own
 maxLength and has the patterns of all bases

---
 punx/nxdl_schema.py    | 5 +++--
 punx/schema_manager.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 4eb4dd5..fca509d 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -560,9 +560,10 @@ class NXDL_item_catalog(object):
         # apply_substitutions base values defined in NXDL
         for v in xref.values():
             if hasattr(v, "base"):
-                if v.base in xref:
+                while v.base in xref:
                     known_base = xref[v.base]
-                    v.maxLength = known_base.maxLength
+                    if v.maxLength is None:
+                        v.maxLength = known_base.maxLength
                     v.patterns += known_base.patterns
                     v.base = known_base.base
 
diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 8e80788..45c069c 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -155,10 +155,11 @@ class SchemaManager(object):
 
         # adjust for any restrictions with NeXus base
         for v in db.values():
-            if v.base != "token" and v.base in db:
+            while v.base != "token" and v.base in db:
                 base = db[v.base]
                 v.base = base.base
-                v.maxLength = base.maxLength
+                if v.maxLength < 0:
+                    v.maxLength = base.maxLength
                 v.re_list += base.re_list
 
         return db
-- 
2.43.0


From ffc642a67c8de502fc5a1a3e5cf4eb105e831043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 41/48] fix: all patterns of an attribute are in the NXDL
 summary

---
 punx/nxdl_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index fca509d..88b5a48 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -188,8 +188,8 @@ class NXDL_schema__attribute(NXDL_schema__Mixin):
         nodelist = xml_node.xpath(
             "xs:simpleType/xs:restriction/xs:pattern", namespaces=ns
         )
-        if len(nodelist) == 1:
-            self.patterns.append(nodelist[0].attrib["value"])
+        for node in nodelist:
+            self.patterns.append(node.attrib["value"])
 
 
 class NXDL_schema__attributeGroup(NXDL_schema__Mixin):
-- 
2.43.0


From e72ee18b998cb5e9f93bbc0aa646dea9b6b9b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 42/48] fix: patterns of types are given for the symbol element
 of the NXDL summary, too

---
 punx/nxdl_schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 88b5a48..f409a18 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -489,9 +489,6 @@ class NXDL_item_catalog(object):
                                         # avoid a recursion (group can have child group)
                                         node.children.append(copy.deepcopy(item))
 
-                                # substitutions in the children
-                                apply_substitutions(node, catalog)
-
                             for attribute_name in "patterns maxLength".split():
                                 if hasattr(reference, attribute_name):
                                     node.__setattr__(
@@ -499,6 +496,10 @@ class NXDL_item_catalog(object):
                                         reference.__getattribute__(attribute_name),
                                     )
 
+                # substitutions in the children
+                if hasattr(node, "children"):
+                    apply_substitutions(node, catalog)
+
         apply_substitutions(self.definition_element, self.db)
 
     def add_to_catalog(self, node, obj, key=None):
-- 
2.43.0


From bc29e70da58e357eecd6983c2edc0374cd008b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:13 +0000
Subject: [PATCH 43/48] fix: value of @target of a group is OK only if that
 item is in the file

---
 punx/validations/hdf5_group_items_in_base_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index f12ea1c..7a3f132 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -95,7 +95,7 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = text in validator.addresses
+            found = text.startswith("/") and utils.child_in_group(validator.h5, text)
             if found:
                 status = finding.OK
                 c = "found"
-- 
2.43.0


From fc76b12268d018362e2a0ef41bc99d33ee763654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:42 +0000
Subject: [PATCH 44/48] fix: install extracted files of directories deeper in
 the archive with the names of NXDL directories

---
 punx/cache_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 9159c78..85ae2cf 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -235,13 +235,19 @@ def extract_file_set(zip_content, path, file_set_name, url):
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
     download_path = path / zip_content.filelist[0].filename.split("/")[0]
+    # only these directories, not others of such names deeper in the archive
+    directories = [f"{download_path.name}/{c}" for c in NXDL_categories]
+    directories.append(download_path.name)
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
     item_count = 0
     dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
     for item in zip_content.namelist():
-        if is_extractable(item, NXDL_file_endings_list, allowed_parents):
+        if (
+            os.path.dirname(item) in directories
+            and is_extractable(item, NXDL_file_endings_list, allowed_parents)
+        ):
             zip_content.extract(item, path)
             dt = max(zip_content.getinfo(item).date_time, dt)
             item_count += 1
-- 
2.43.0


From a0874a7c2cd19adb133e94b75d60dd74136a4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:42 +0000
Subject: [PATCH 45/48] fix: default plot: KeyError if NXentry of the NXDL file
 set defines no data group

---
 punx/validations/default_plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index d440981..e27f1a6 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -36,11 +36,14 @@ def verify(validator):
             break  # no need to look further
     if status is None:
         c = "no default plot described"
-        data_group = validator.manager.classes["NXentry"].groups["data"]
+        nxentry = validator.manager.classes.get("NXentry")
+        data_group = None if nxentry is None else nxentry.groups.get("data")
         minOccurs = 1
         for v_item in validator.addresses.values():
             if getattr(v_item, "nx_class", None) == "NXentry":
-                minOccurs = int(data_group.attributes.get("minOccurs", 0))
+                minOccurs = 0  # also if not defined by this NXDL file set
+                if data_group is not None:
+                    minOccurs = int(data_group.attributes.get("minOccurs", 0))
         if minOccurs > 0:
             status = finding.ERROR
         else:
-- 
2.43.0


From 48a93716182de5c2dd008c54018bbb950ad38dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 46/48] fix: RecursionError for groups nested deeper than
 Python's recursion limit

---
 punx/h5tree.py   | 26 +++++++++++++++++++-------
 punx/validate.py | 19 ++++++++++++-------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 4f11e71..4c45c08 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -103,6 +103,20 @@ class Hdf5TreeView(object):
             Groups (instances of ``h5py.Group``) which contain this group.
         """
         s = []
+        # not recursive: groups may be nested deeper than Python's recursion limit
+        pending = [(obj, name, indentation, md, parents)]
+        while len(pending) > 0:
+            lines, groups = self._renderGroupItems(*pending.pop())
+            s += lines
+            pending += reversed(groups)
+        return s
+
+    def _renderGroupItems(self, obj, name, indentation, md, parents):
+        """
+        return a [formatted_string] with the group and its contents which are
+        not groups, and list of the arguments to render the groups it contains
+        """
+        s = []
         nxclass = utils.decode_byte_string(obj.attrs.get("NX_class", ""))
         if isinstance(nxclass, list):  # attribute reported as DATATYPE SIMPLE
             nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
@@ -185,13 +199,11 @@ class Hdf5TreeView(object):
                     )
                     raise Exception(msg)
 
-        for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(
-                value, itemname, indentation + "  ", md, (*parents, obj)
-            )
-            s += g
-
-        return s
+        # things that look like groups are shown last
+        return s, [
+            (value, itemname, indentation + "  ", md, (*parents, obj))
+            for value, itemname, md in groups
+        ]
 
     def _renderSingleAttribute(self, indentation, name, value):
         name = utils.decode_byte_string(name)
diff --git a/punx/validate.py b/punx/validate.py
index 2749310..5f1245f 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -314,12 +314,17 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
-        parent = get_subject(parent, group, link_name)
-        for item in group:
-            name = item
+        # not recursive: groups may be nested deeper than Python's recursion limit
+        pending = [(get_subject(parent, group, link_name), iter(group))]
+        while len(pending) > 0:
+            parent, names = pending[-1]
+            name = next(names, None)
+            if name is None:
+                pending.pop()
+                continue
             item = utils.decode_byte_string(name)
             try:
-                h5_object = group[name]
+                h5_object = parent.h5_object[name]
             except (KeyError, OSError, RuntimeError) as exc:
                 c = f"cannot read '{item}': {exc}"
                 self.record_finding(parent, f"link '{item}'", finding.WARN, c)
@@ -327,10 +332,10 @@ class Data_File_Validator(object):
             if parent.is_inside(h5_object):
                 c = f"'{item}' links back to a group which contains it"
                 self.record_finding(parent, f"link '{item}'", finding.NOTE, c)
-            elif utils.isHdf5Group(h5_object):
-                self._group_address_catalog_(parent, h5_object, item)
             else:
-                get_subject(parent, h5_object, item)
+                v_item = get_subject(parent, h5_object, item)
+                if utils.isHdf5Group(h5_object):
+                    pending.append((v_item, iter(h5_object)))
 
     def validate_item_name(self, v_item):
         from .validations import item_name
-- 
2.43.0


From 4075ff27d21f744f10a070d7018ed87f7063f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:25 +0000
Subject: [PATCH 47/48] fix: tree reads whole parts of an array to show some
 items, MemoryError if it is very large

---
 punx/h5tree.py | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 4c45c08..5c7481d 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -177,7 +177,7 @@ class Hdf5TreeView(object):
                 elif utils.isHdf5Dataset(value):
                     try:
                         s += self._renderDataset(value, itemname, indentation + "  ")
-                    except OSError as exc:
+                    except (OSError, MemoryError) as exc:
                         txt = f"{itemname}:{value.dtype} = cannot read data: {exc}"
                         s += [indentation + "  " + txt]
                         s += self._renderAttributes(value, indentation + "  ")
@@ -304,7 +304,7 @@ class Hdf5TreeView(object):
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
             if len(obj.shape):
-                t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
+                t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj[()]])
             else:
                 t = "CHAR"
         elif obj.dtype.kind == "O":  # variable-length string
@@ -342,37 +342,47 @@ class Hdf5TreeView(object):
                 n = self.array_items_shown - 2
         return n
 
-    def _renderNdArray(self, obj, indentation="  "):
-        """return a list of lower-dimension arrays, nicely formatted"""
+    def _renderNdArray(self, obj, indentation="  ", indices=()):
+        """
+        return a list of lower-dimension arrays, nicely formatted
 
-        def __render(obj, rank, key, indents):
-            if rank == 1:
-                item = obj[key]
-            elif rank < 4:
-                # this replaces a lot of code: if rank == ...
-                indices = ", ".join([str(key)] + (":" * (rank - 1)).split())
+        Only the items to be shown are read, the array could be very large.
+
+        indices : tuple
+            Which part of the array, all of it if empty.
+        """
+
+        def __render(key, indents):
+            if rank < 4:
                 try:
-                    part = eval(f"obj[{indices}]")
+                    item = self._renderNdArray(  # recursion
+                        obj, indents + "  ", (*indices, key)
+                    )
                 except OSError as exc:
-                    return f"indices={indices}, obj={obj}, exc={exc}"
-
-                item = self._renderNdArray(part, indents + "  ")  # recursion
+                    if len(indices) > 0:
+                        raise
+                    where = ", ".join([str(key)] + (":" * (rank - 1)).split())
+                    return f"indices={where}, obj={obj}, exc={exc}"
             else:
                 item = f"rank={rank - 1}"
 
             return item
 
-        shape = obj.shape
+        shape = obj.shape[len(indices):]
         rank = len(shape)
         if rank < 1:
             return None
         n = self._decideNumShown(shape[0])
-        r = []
-        for i in range(n):
-            r.append(__render(obj, rank, i, indentation + "  "))
+        if rank == 1:
+            r = list(obj[(*indices, slice(0, n))])
+        else:
+            r = [__render(i, indentation + "  ") for i in range(n)]
         if n < shape[0]:
             r.append("...")  # skip over most
-            r.append(__render(obj, rank, -1, indentation + "  "))  # last one
+            if rank == 1:
+                r.append(obj[(*indices, -1)])
+            else:
+                r.append(__render(-1, indentation + "  "))  # last one
 
         if rank == 1:
             s = str(r)
-- 
2.43.0


From 5caa36d3f46924402aa391a0b441621bc6a703b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 48/48] fix: MemoryError if definition (or field with
 enumeration) is a very large dataset

---
 punx/validations/application_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 41de057..32c374c 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -20,7 +20,9 @@ def first_value(h5_dataset):
     Return (first item of) the dataset, as text
     """
     try:
-        value = h5_dataset[()]
+        # do not read all of it, it could be very large
+        where = () if not h5_dataset.size else (0,) * len(h5_dataset.shape)
+        value = h5_dataset[where]
     except OSError:
         return ""  # cannot read the data
     if isinstance(value, numpy.ndarray):
-- 
2.43.0

