"""Shared plumbing of the checks: tier, scratch space, verdicts, evidence."""
import atexit
import collections
import json
import multiprocessing
import os
import pathlib
import shutil
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("MAPRY_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
JOBS = min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    """Scratch directory of this check, removed when it ends."""
    global _scratch
    if _scratch is None:
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="mapry-mc-"))
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(str(_scratch), ignore_errors=True)

        atexit.register(clean)
    return _scratch


def load_known():
    """Known findings: {(property, key): description}."""
    res = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            prop = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            res[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return res


class Check:
    """Collects what one check explored and what it found."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.known = load_known()
        self.violations = []
        self.hits = collections.OrderedDict()
        self.cov = collections.OrderedDict()
        self.assumptions = []
        self.samples = []
        self.notes = []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def fail(self, what, replay=None, key=None):
        """Report a violation, or a known finding if its key is listed."""
        if key is not None and (self.prop, key) in self.known:
            self.hits[key] = self.hits.get(key, 0) + 1
            return
        self.violations.append((what, replay, key))

    def knows(self, key):
        return (self.prop, key) in self.known

    def hit(self, key, n=1):
        self.hits[key] = self.hits.get(key, 0) + n

    def finish(self):
        (VERIF / "evidence").mkdir(exist_ok=True)
        for key, n in self.hits.items():
            print("KNOWN-FINDING: property={} [{}; seen {} times] {}".format(
                self.prop, key, n, self.known.get((self.prop, key), "")))
        cov = collections.OrderedDict(self.cov)
        if self.samples:
            cov["samples"] = self.samples
        if self.notes:
            cov["notes"] = self.notes
        if self.hits:
            cov["known_findings_seen"] = dict(self.hits)
        doc = collections.OrderedDict([
            ("property", self.prop), ("tier", TIER), ("seed", SEED),
            ("level", self.level), ("coverage", cov),
            ("assumptions", self.assumptions),
            ("wall_s", round(time.time() - self.t0, 2)),
            ("violations", len(self.violations))])
        path = VERIF / "evidence" / (self.prop + ".json")
        path.write_text(json.dumps(doc, indent=1, ensure_ascii=True) + "\n")
        rdir = VERIF / "evidence" / "replay"
        if self.violations:
            rdir.mkdir(exist_ok=True, parents=True)
        for i, (what, replay, key) in enumerate(self.violations[:int(os.environ.get("MC_SHOW", "10"))]):
            rp = rdir / "{}-{}.json".format(self.prop, i)
            rp.write_text(json.dumps(
                {"property": self.prop, "what": what, "key": key,
                 "replay": replay}, indent=1, default=repr) + "\n")
            print("  {}".format(what)[:1500])
            print("VIOLATION property={} replay={}".format(self.prop, rp))
        if len(self.violations) > 10:
            print("  ... and {} more".format(len(self.violations) - 10))
        keys = [k for k in cov if isinstance(cov[k], int)]
        print("{}: {} violation(s); {}; {:.1f}s".format(
            self.prop, len(self.violations),
            ", ".join("{}={}".format(k, cov[k]) for k in keys),
            time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def new_dir(prefix):
    """A directory of its own within the scratch directory."""
    return pathlib.Path(tempfile.mkdtemp(prefix=prefix, dir=str(scratch())))


def _guard(args):
    fn, item = args
    try:
        return ("ok", fn(item))
    except BaseException:  # pylint: disable=broad-except
        return ("err", traceback.format_exc())


def pmap(fn, items, jobs=None, chunk=1):
    """Parallel map over forked workers; a worker's crash is an error."""
    items = list(items)
    if not items:
        return []
    scratch()
    jobs = jobs or JOBS
    if jobs == 1:
        res = [_guard((fn, it)) for it in items]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(jobs) as pool:
            res = pool.map(_guard, [(fn, it) for it in items], chunksize=chunk)
    out = []
    for kind, val in res:
        if kind == "err":
            raise RuntimeError("worker failed:\n" + val)
        out.append(val)
    return out
