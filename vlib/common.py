"""Shared machinery of all checks: environment, worker processes, verdicts, evidence.

A check is a module checks/cNN.py with::

    PROPERTY = "C01"
    def run(ctx): ...

It drives the real code of /repo in worker processes (``ctx.run_jobs``) or command line
processes (``ctx.punx``), and judges what was recorded there.
"""

import concurrent.futures
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
NCPU = max(2, min(8, os.cpu_count() or 2))
CACHE = os.path.join(REPO, "punx", "cache")
SETS = ("a4fd52d", "v3.3", "v2018.5")


class Inconclusive(Exception):
    """The monitor did not observe what it needs to give a verdict."""


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def jsonable(obj):
    try:
        json.dumps(obj)
        return obj
    except (TypeError, ValueError):
        if isinstance(obj, dict):
            return {str(k): jsonable(v) for k, v in obj.items()}
        if isinstance(obj, (list, tuple, set)):
            return [jsonable(v) for v in obj]
        return repr(obj)


class Context:
    """One run of one check."""

    def __init__(self, prop, level, tier_=None):
        self.property = prop
        self.level = level
        self.tier = tier_ or tier()
        self.seed = seed()
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.config = os.path.join(self.scratch, "config")
        os.makedirs(self.config)
        self.pycache = os.path.join(self.scratch, "pycache")
        self.violations = []
        self.known = []
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self._lock = threading.Lock()

    # ---- helpers -------------------------------------------------------

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *label):
        return random.Random("|".join(map(str, (self.seed, self.property) + label)))

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def evaluated(self, fingerprint=None, n=1):
        """An oracle was evaluated on one observed execution.

        ``fingerprint`` describes a non-trivial case (None: trivial).
        """
        self.evaluations += n
        if fingerprint is not None:
            if not isinstance(fingerprint, str):
                fingerprint = json.dumps(jsonable(fingerprint), sort_keys=True)
            self.distinct.add(hashlib.md5(fingerprint.encode("utf8", "replace")).hexdigest())

    def env(self, config=None, **extra):
        e = dict(
            PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
            HOME=os.path.join(self.scratch, "home"),
            LANG="C.UTF-8",
            XDG_CONFIG_HOME=config or self.config,
            QT_QPA_PLATFORM="offscreen",
            SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
            PYTHONHASHSEED="0",
            # never trust byte code found in the source tree
            PYTHONPYCACHEPREFIX=self.pycache,
            PYTHONPATH=REPO + os.pathsep + VERIF,
            TMPDIR=self.scratch,
            VERIF_SEED=str(self.seed),
            VERIF_TIER=self.tier,
            VERIF_REPO=REPO,
            HDF5_USE_FILE_LOCKING="BEST_EFFORT",
            NO_PROXY="*",
        )
        os.makedirs(e["HOME"], exist_ok=True)
        e.update(extra)
        return e

    def mkdir(self, *names):
        path = os.path.join(self.scratch, *names)
        os.makedirs(path, exist_ok=True)
        return path

    # ---- violations ----------------------------------------------------

    def violation(self, what, detail=None, files=(), key=None):
        """Record a violation, with all that is needed to look at it again."""
        with self._lock:
            self.violations.append(dict(what=what, detail=jsonable(detail), files=list(files), key=key))

    # ---- worker processes ----------------------------------------------

    def run_jobs(self, jobs, workers=None, batch=None, cpu_limit=300, wall=600, module="vlib.worker",
                 config=None, env=None):
        """Run ``jobs`` (list of dict) in worker processes, return list of result dicts.

        A worker which dies gives result {"died": reason} for the job it was in;
        the other jobs continue in a new worker.
        """
        n = len(jobs)
        results = [None] * n
        if n == 0:
            return results
        workers = workers or NCPU
        if batch is None:
            batch = max(1, -(-n // workers))
        # interleave, so that costly neighbours do not end in the same batch
        nb = -(-n // batch)
        batches = [list(range(i, n, nb)) for i in range(nb)]
        e = self.env(config)
        if env:
            e.update(env)

        def run_batch(indices):
            todo = list(indices)
            while todo:
                fd, jobfile = tempfile.mkstemp(suffix=".jobs", dir=self.scratch)
                with os.fdopen(fd, "w") as f:
                    json.dump([[i, jobs[i]] for i in todo], f)
                outfile = jobfile + ".out"
                with open(jobfile + ".err", "wb") as err:
                    p = subprocess.Popen(
                        [PYTHON, "-m", module, jobfile, outfile, str(cpu_limit)],
                        env=e, cwd=self.scratch, stdin=subprocess.DEVNULL,
                        stdout=subprocess.DEVNULL, stderr=err, start_new_session=True,
                    )
                    reason = None
                    try:
                        p.wait(timeout=wall)
                    except subprocess.TimeoutExpired:
                        reason = "wall clock watchdog"
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                begun = None
                done = set()
                if os.path.exists(outfile):
                    with open(outfile, encoding="utf8", errors="surrogateescape") as f:
                        for line in f:
                            try:
                                kind, i, obj = json.loads(line)
                            except ValueError:
                                continue
                            if kind == "begin":
                                begun = i
                            else:
                                results[i] = obj
                                done.add(i)
                                begun = None
                with open(jobfile + ".err", "rb") as f:
                    tail = f.read()[-1500:].decode("utf8", "replace")
                for fn in (jobfile, outfile, jobfile + ".err"):
                    if os.path.exists(fn):
                        os.remove(fn)
                remaining = [i for i in todo if i not in done]
                if not remaining:
                    break
                if begun is None:
                    raise Inconclusive(f"worker could not start: rc={p.returncode} {reason}: {tail}")
                results[begun] = dict(died=reason or f"exit code {p.returncode}", stderr=tail)
                todo = [i for i in remaining if i != begun]

        with concurrent.futures.ThreadPoolExecutor(workers) as pool:
            for f in [pool.submit(run_batch, b) for b in batches]:
                f.result()
        return results

    def punx(self, args, config=None, cwd=None, timeout=180, prelude="", env=None, stdin=None):
        """Run the command line program, return (exit code, stdout, stderr)."""
        code = (
            "import sys; sys.argv[0] = 'punx'\n" + prelude
            + "\nfrom punx.main import main\nmain()\n"
        )
        try:
            p = subprocess.run(
                [PYTHON, "-c", code, *map(str, args)],
                env=self.env(config, **(env or {})), cwd=cwd or self.scratch,
                stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            raise Inconclusive(f"watchdog: punx {args}")
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

    def parallel(self, fn, items, workers=None):
        with concurrent.futures.ThreadPoolExecutor(workers or NCPU) as pool:
            return list(pool.map(fn, items))

    # ---- end -----------------------------------------------------------

    def finish(self, min_distinct=2):
        """Write evidence, print the verdict, return exit code."""
        code = 0
        known = load_known(self.property)
        fresh = []
        for v in self.violations:
            for kn in known:
                if v["key"] is not None and v["key"] == kn["key"]:
                    self.known.append((kn, v))
                    break
            else:
                fresh.append(v)
        printed = set()
        for kn, v in self.known:
            if kn["key"] not in printed:
                printed.add(kn["key"])
                print(f"KNOWN-FINDING: property={self.property} {kn['text']}")
        if fresh:
            code = 1
            replay_dir = os.path.join(VERIF, "replays", f"{self.property}-{self.tier}-{self.seed}")
            shutil.rmtree(replay_dir, ignore_errors=True)
            os.makedirs(replay_dir)
            seen = {}
            for v in fresh:
                seen.setdefault(v["what"], []).append(v)
            shown = 0
            for what, group in list(seen.items())[:20]:
                v = group[0]
                copies = []
                for fn in v["files"]:
                    if os.path.isfile(fn):
                        dst = os.path.join(replay_dir, f"{shown:02d}-" + os.path.basename(fn))
                        shutil.copy(fn, dst)
                        copies.append(dst)
                path = os.path.join(replay_dir, f"{shown:02d}.json")
                with open(path, "w") as f:
                    json.dump(
                        dict(property=self.property, tier=self.tier, seed=self.seed, what=what,
                             occurrences=len(group), detail=v["detail"], files=copies,
                             rerun=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} {PYTHON} run_check.py {self.property}"),
                        f, indent=1)
                print(f"VIOLATION property={self.property} replay={path}")
                print(f"  {what} ({len(group)} occurrence(s))")
                txt = json.dumps(v["detail"])
                print("  " + txt[:1500])
                shown += 1
        if code == 0 and (self.evaluations == 0 or len(self.distinct) < min_distinct):
            print(f"INCONCLUSIVE property={self.property}: monitors observed only "
                  f"{self.evaluations} executions, {len(self.distinct)} distinct")
            code = 3
        ev = dict(
            property=self.property, tier=self.tier, seed=self.seed, level=self.level,
            coverage=dict(
                evaluations=self.evaluations,
                distinct_nontrivial=len(self.distinct),
                rule=self.rule,
                samples=self.samples,
                observed=self.counters,
                **self.extra,
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(fresh),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.property}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if code == 0:
            print(f"OK property={self.property} tier={self.tier} seed={self.seed} "
                  f"evaluations={self.evaluations} distinct={len(self.distinct)} "
                  f"wall={ev['wall_s']}s")
        return code

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    """Known findings: lines ``known: property=<id> key=<key> <text>``."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                words = line[len("known: "):].split(" ", 2)
                if words[0] == f"property={prop}" and words[1].startswith("key="):
                    out.append(dict(key=words[1][4:], text=words[2]))
    return out


def main(argv):
    import importlib

    prop = argv[1]
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    ctx = Context(prop, getattr(mod, "LEVEL", "exploration"))
    try:
        ctx.rule = getattr(mod, "RULE", "")
        ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        try:
            mod.run(ctx)
        except Inconclusive as exc:
            if not ctx.violations:
                print(f"INCONCLUSIVE property={prop}: {exc}")
                return 3
            print(f"note: run stopped early: {exc}")
        except Exception:
            if not ctx.violations:
                raise
            traceback.print_exc()
        return ctx.finish(getattr(mod, "MIN_DISTINCT", 2))
    finally:
        ctx.cleanup()
