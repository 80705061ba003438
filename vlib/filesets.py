"""Make and inspect NXDL file sets: user caches on disk, ZIP archives as GitHub makes them."""

import hashlib
import io
import json
import os
import random
import re
import shutil
import zipfile

from . import common

INFO = "__github_info__.json"
CATEGORIES = "base_classes applications contributed_definitions".split()


def date(rng):
    return "%04d-%02d-%02d %02d:%02d:%02d" % (rng.randrange(1990, 2040), rng.randrange(1, 13), rng.randrange(1, 29),
                                              rng.randrange(24), rng.randrange(60), rng.randrange(60))


def sha(rng):
    return "%040x" % rng.getrandbits(160)


def write_info(path, obj):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, INFO), "w") as f:
        f.write(obj if isinstance(obj, str) else json.dumps(obj))


def copy_set(src, path, ref, last_modified, sha_="0123456789abcdef", change=None):
    """a complete file set, with a change of one class"""
    shutil.copytree(os.path.join(common.CACHE, src), path)
    write_info(path, dict(ref=ref, sha=sha_, zip_url="x", last_modified=last_modified))
    if change:
        fn, old, new = change
        fn = os.path.join(path, fn)
        s = open(fn, encoding="utf8").read()
        assert old in s
        open(fn, "w", encoding="utf8").write(s.replace(old, new, 1))


def snapshot(path):
    """content of a directory: relative name: md5"""
    out = {}
    for base, dirs, files in os.walk(path):
        for fn in files:
            p = os.path.join(base, fn)
            rel = os.path.relpath(p, path)
            if os.path.islink(p):
                out[rel] = "link " + os.readlink(p)
            else:
                out[rel] = hashlib.md5(open(p, "rb").read()).hexdigest()
        for dn in dirs:
            p = os.path.join(base, dn)
            if os.path.islink(p):
                out[os.path.relpath(p, path)] = "link " + os.readlink(p)
    return out


NXDL = """<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="http://definition.nexusformat.org/nxdl/3.1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
 xsi:schemaLocation="http://definition.nexusformat.org/nxdl/3.1 ../nxdl.xsd"
 category="base" name="%s" version="1.0" type="group" extends="NXobject"><doc>%s</doc><field name="%s"/></definition>
"""


def archive(rng, name="definitions-x", comment=None, hostile=False, full=None):
    """ZIP of a repository: (bytes, members); members: list of [name, content, date]"""
    top = name
    members = []
    salt = "%x" % rng.getrandbits(48)

    def add(fn, content):
        d = (rng.randrange(1980, 2040), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), 2 * rng.randrange(30))
        members.append([fn, content, d])

    add(top + "/", "")
    if full:
        src = os.path.join(common.CACHE, full)
        for base, dirs, files in sorted(os.walk(src)):
            for fn in sorted(files):
                if fn != INFO:
                    rel = os.path.relpath(os.path.join(base, fn), src)
                    add(f"{top}/{rel}", open(os.path.join(base, fn), encoding="utf8").read())
    else:
        add(f"{top}/nxdl.xsd", "xsd " + salt)
        add(f"{top}/nxdlTypes.xsd", "types " + salt)
        for cat in CATEGORIES:
            add(f"{top}/{cat}/", "")
            for i in range(rng.randrange(0, 5)):
                cls = "NX%s%d" % (rng.choice(["data", "log", "mx"]), i)
                add(f"{top}/{cat}/{cls}.nxdl.xml", NXDL % (cls, salt, "x"))
            if rng.random() < 0.5:
                add(f"{top}/{cat}/nxdlformat.xsl", "xsl " + salt)
    # content which is not to be installed
    add(f"{top}/README.md", "read " + salt)
    add(f"{top}/.github/workflows/ci.yml", "x")
    add(f"{top}/utils/tool.py", "print(1)")
    add(f"{top}/manual/source/extra.xml", "<x/>")
    add(f"{top}/base_classes/notes.txt", "text")
    add(f"{top}/applications/Makefile", "all:")
    add(f"{top}/utils/other.xsl", "xsl")
    add(f"{top}/xml/thing.xsd", "xsd")
    add(f"{top}/base_classes.xml/x", "q")
    add(f"{top}/base_classes/NXupper.nxdl.XML", "upper " + salt)
    add(f"{top}/applications/NXold.nxdl.xml~", "old " + salt)
    add(f"{top}/applications/NXold.nxdl.xml.bak", "old " + salt)
    add(f"{top}/Base_Classes/NXcase.nxdl.xml", "case " + salt)
    add(f"{top}/base_classes/old/NXolder.nxdl.xml", "older " + salt)
    add(f"{top}/old_base_classes/NXold.nxdl.xml", "old " + salt)
    add(f"{top}/base_classes/xml", "no suffix")
    for fn in ("base_classes/NX\u00e9t\u00e9.nxdl.xml", "applications/NX\u6570\u636e.nxdl.xml", "contributed_definitions/with space.nxdl.xml", "base_classes/.hidden.nxdl.xml", "\u00fc.xsd",
               "applications/NXa+b%20c.nxdl.xml", "base_classes/" + "n" * 150 + ".nxdl.xml", "contributed_definitions/-x.xsl", "base_classes/base_classes.xml", "applications/NXx.xml.xsd"):
        if rng.random() < 0.15:
            add(f"{top}/{fn}", "odd name " + salt)
    for fn in ("manual/base_classes/NXmanual.nxdl.xml", f"{top}/inner.xml", f"tests/{top}/inner.xsd", "applications/base_classes/NXinner.nxdl.xml", "a/b/applications/nxdlformat.xsl"):
        if rng.random() < 0.5:
            add(f"{top}/{fn}", "deeper " + salt)
    for fn in ("empty.xsd", "applications/NXempty.nxdl.xml", "base_classes/NXempty.nxdl.xml", "contributed_definitions/empty.xsl"):
        if rng.random() < 0.2:
            add(f"{top}/{fn}", "")
    order = members[1:]
    if rng.random() < 0.5:
        rng.shuffle(order)
    members[1:] = order
    if rng.random() < 0.25:
        # no entries of directories: the first member may be any file
        members = [m for m in members if not m[0].endswith("/")]
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for fn, content, d in members:
            zi = zipfile.ZipInfo(fn, date_time=d)
            zi.external_attr = (0o755 << 16) | 0x10 if fn.endswith("/") else 0o644 << 16
            z.writestr(zi, content)
        z.comment = (sha(rng) if comment is None else comment).encode()
        comment = z.comment.decode()
    return buf.getvalue(), members, comment


def installed_content(members):
    """what has to be installed: relative name: md5, and the date of the newest file"""
    top = members[0][0].split("/")[0]
    out, newest = {}, None
    for fn, content, d in members:
        parts = fn.split("/")
        if not fn.endswith((".xsd", ".xml", ".xsl")):
            continue
        if (len(parts) == 2 and parts[0] == top) or (len(parts) == 3 and parts[0] == top and parts[1] in CATEGORIES):
            out["/".join(parts[1:])] = hashlib.md5(content.encode("utf8") if isinstance(content, str) else content).hexdigest()
            newest = max(newest or d, d)
    return out, newest


# prelude of a process: no network, but archives of a directory: <dir>/<file set name>.zip
FAKE = r"""
import os, sys
def _fake_github(directory, log=None):
    import requests
    class Response:
        def __init__(self, content, code=200):
            self.content, self.status_code = content, code
            self.ok = code < 400
        def raise_for_status(self):
            if not self.ok:
                raise requests.exceptions.HTTPError("404")
    def get(url, *args, **kwargs):
        if log is not None:
            with open(log, "a") as f:
                f.write(url + "\n")
        base = "https://github.com/nexusformat/definitions/archive/"
        name = url[len(base):]
        if name.startswith("down"):
            raise requests.exceptions.ConnectionError("no connection, says the stand-in of the check")
        fn = os.path.join(directory, name.replace("/", "%"))
        if not url.startswith(base) or not os.path.exists(fn):
            return Response(b"404: Not Found", 404)
        return Response(open(fn, "rb").read())
    requests.get = get
"""


def fake(directory, log=None):
    return FAKE + f"\n_fake_github({directory!r}, {log!r})\n"


def default_is_newest(text):
    """output of punx install: is the default file set (one of) the newest of the table of file sets?"""
    dates = {}
    for line in text.split("\n"):
        m = re.match(r"(\S+)\s+(?:source|user)\s+(\d+-\d+-\d+ \d+:\d+:\d+) ", line)
        if m:
            dates[m.group(1)] = m.group(2)
    m = re.search(r"default (?:NXDL )?file set: +(\S+)", text)
    return bool(m) and dates.get(m.group(1)) == max(dates.values())
