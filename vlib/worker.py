"""Executes jobs on the real code of /repo, records what can be observed from outside.

Run as: python -m vlib.worker JOBFILE OUTFILE CPU_LIMIT_PER_JOB
"""

import io
import contextlib
import importlib
import json
import logging
import os
import resource
import sys
import traceback

logging.disable(logging.CRITICAL)

_validators = {}


def get_validator(ref, fresh=False):
    from punx import validate

    if fresh:
        return validate.Data_File_Validator(ref)
    if ref not in _validators:
        _validators[ref] = validate.Data_File_Validator(ref)
    return _validators[ref]


def exc_info(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/punx/" in f.filename]
    return dict(type=type(exc).__name__, bases=[c.__name__ for c in type(exc).__mro__],
                text=str(exc)[:500], where=where[-4:])


def findings_of(v):
    return [[f.h5_address, str(f.test_name), str(f.status), str(f.comment)] for f in v.validations]


def kind_of(obj):
    import h5py

    if isinstance(obj, h5py.File):
        return "root"
    if isinstance(obj, h5py.Group):
        return "group"
    if isinstance(obj, h5py.Dataset):
        return "dataset"
    if isinstance(obj, h5py.Datatype):
        return "datatype"
    return "attribute"


def op_validate(job):
    """validate one file, record all results"""
    v = get_validator(job.get("ref"), job.get("fresh", False))
    out = dict(op="validate")
    try:
        v.validate(job["file"])
    except BaseException as exc:
        out["exc"] = exc_info(exc)
        with contextlib.suppress(Exception):
            v.close()
        return out
    return record_validation(v, job, out)


def record_validation(v, job, out):
    want = job.get("want", "findings")
    out["findings"] = findings_of(v)
    if "catalog" in want:
        out["addresses"] = [
            [k, item.classpath, str(item.name), kind_of(item.h5_object), item.h5_address,
             None if item.parent is None else item.parent.h5_address]
            for k, item in v.addresses.items()
        ]
        out["classpaths"] = {k: [i.h5_address for i in items] for k, items in v.classpaths.items()}
        out["item_ids"] = sum(len(items) for items in v.classpaths.values())
    if "score" in want:
        out["score"] = list(v.finding_score())
        out["summary"] = [[str(k), n] for k, n in v.finding_summary().items()]
    if "subsets" in want:
        from punx import finding

        out["subsets"] = []
        for names in job["subsets"]:
            s = [finding.VALID_STATUS_DICT[n] for n in names]
            out["subsets"].append([[str(k), n] for k, n in v.finding_summary(s).items()])
    if "report" in want:
        out["reports"] = []
        for statuses in job["statuses"]:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                v.print_report(statuses=statuses)
            out["reports"].append(buf.getvalue())
    if "items" in want:
        out["items"] = [
            [item.h5_address, key, str(f.status), f.h5_address, f in v.validations]
            for items in v.classpaths.values() for item in items
            for key, f in item.validations.items()
        ]
    if job.get("close", True):
        v.close()
        out["closed"] = v.h5 is None
    return out


def op_tree(job):
    from punx import h5tree

    out = dict(op="tree")
    try:
        mc = h5tree.Hdf5TreeView(job["file"])
        if "max" in job:
            mc.array_items_shown = job["max"]
        out["isNeXus"] = mc.isNeXus
        out["report"] = mc.report(job.get("attrs", True))
        if job.get("again"):
            out["again"] = mc.report(job.get("attrs", True))
    except BaseException as exc:
        out["exc"] = exc_info(exc)
    return out


def op_isnexus(job):
    from punx import utils

    try:
        return dict(op="isnexus", value=utils.isNeXusFile(job["file"]))
    except BaseException as exc:
        return dict(op="isnexus", exc=exc_info(exc))


def op_call(job):
    """call a function (of the check): module:function(job)"""
    mod, fn = job["call"].split(":")
    try:
        return getattr(importlib.import_module(mod), fn)(job)
    except Exception as exc:
        return dict(exc=exc_info(exc))


OPS = dict(validate=op_validate, tree=op_tree, isnexus=op_isnexus, call=op_call)


def run(jobfile, outfile, cpu_limit):
    with open(jobfile) as f:
        jobs = json.load(f)
    sys.setrecursionlimit(1000)
    with open(outfile, "w", buffering=1) as out:
        for i, job in jobs:
            used = resource.getrusage(resource.RUSAGE_SELF)
            soft = int(used.ru_utime + used.ru_stime) + job.get("cpu", cpu_limit)
            resource.setrlimit(resource.RLIMIT_CPU, (soft, resource.RLIM_INFINITY))
            out.write(json.dumps(["begin", i, None]) + "\n")
            result = OPS[job["op"]](job)
            out.write(json.dumps(["end", i, result]) + "\n")


if __name__ == "__main__":
    run(sys.argv[1], sys.argv[2], int(sys.argv[3]))
