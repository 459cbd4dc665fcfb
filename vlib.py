"""
Runner for the runtime-monitoring checks.

A check is a set of sections; a section generates cases from a PRNG that is a
function of (VERIF_SEED, section, case index), drives the real code from /repo
and calls c.require(...) - the monitor - on what it observes.  Verdicts:

  exit 0   every monitor evaluation held, and every section evaluated at least
           its floor of cases
  exit 1   a monitor was refuted: "VIOLATION property=<id> replay=<path>"
  exit 2   inconclusive (a harness error, or too few evaluations)

"<check> --replay FILE" re-executes exactly the recorded case.
"""
import os
import sys

for _k, _v in (("OMP_NUM_THREADS", "1"), ("MPLBACKEND", "Agg"),
               ("WANDB_MODE", "offline"), ("CUDA_VISIBLE_DEVICES", ""),
               ("MKL_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1")):
    os.environ[_k] = _v
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for _p in (os.path.join(VERIF, "shim"), VERIF, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, "shim"))

import collections  # noqa: E402
import contextlib  # noqa: E402
import hashlib  # noqa: E402
import json  # noqa: E402
import multiprocessing  # noqa: E402
import multiprocessing.connection  # noqa: E402
import shutil  # noqa: E402
import signal  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
import torch  # noqa: E402

torch.set_num_threads(1)
import gurobipy  # noqa: E402

DTYPE = torch.float64
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Refuted(Exception):
    def __init__(self, mechanism, message):
        super().__init__("%s: %s" % (mechanism, message))
        self.mechanism = mechanism
        self.message = message


class Skip(Exception):
    """The case is outside the property's domain (counted, not an alarm)."""


class CaseTimeout(Exception):
    pass


def short(v, n=400):
    if isinstance(v, torch.Tensor):
        v = v.detach().numpy()
    if isinstance(v, np.ndarray):
        s = np.array2string(v, precision=17, threshold=60)
    else:
        s = repr(v)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


class Case:
    def __init__(self, section, index):
        self.section, self.index = section, index
        self.counts = collections.Counter()
        self.keys = set()
        self.sample = None
        self.refutations = []
        self.tmp = None

    def ev(self, name, n=1):
        """Count events the monitors actually observed."""
        if isinstance(name, int):
            name, n = "observations", name
        self.counts[name] += n

    def key(self, *parts):
        """Mark the case non-trivial, identified by what it exercised."""
        h = hashlib.sha1(repr([short(p, 4000) for p in parts]).encode())
        self.keys.add(h.hexdigest()[:16])

    def note(self, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update({k: short(v, 200) for k, v in kw.items()})

    def require(self, cond, mechanism, message="", **data):
        self.counts["monitor:" + mechanism] += 1
        if not bool(cond):
            msg = message + " " + "; ".join("%s=%s" % (k, short(v))
                                            for k, v in data.items())
            self.refutations.append((mechanism, msg.strip()))
            raise Refuted(mechanism, msg)

    def close(self, a, b, mechanism, message="", tol=1e-6, scale=None,
              **data):
        a = _np(a)
        b = _np(b)
        self.counts["monitor:" + mechanism] += 1
        ok = a.shape == b.shape
        err = None
        if ok and a.size:
            if scale is None:
                scale = 1. + max(np.max(np.abs(a), initial=0.),
                                 np.max(np.abs(b), initial=0.))
            with np.errstate(invalid="ignore"):
                d = np.where(a == b, 0., np.abs(a - b))
            err = float(np.max(d))
            ok = bool(err <= tol * scale)  # NaN -> False
        if not ok:
            msg = "%s got=%s expected=%s err=%s " % (message, short(a),
                                                     short(b), err)
            msg += "; ".join("%s=%s" % (k, short(v)) for k, v in data.items())
            self.refutations.append((mechanism, msg))
            raise Refuted(mechanism, msg)

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="verif_")
        return self.tmp


def _np(v):
    if isinstance(v, torch.Tensor):
        return v.detach().numpy().astype(float)
    return np.asarray(v, dtype=float)


class Section:
    def __init__(self, name, fn, quick, thorough, floor, timeout):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        self.floor, self.timeout = floor, timeout

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


_CHECK = None
_ABORT = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _classify(exc):
    """('refuted'|'violation'|'solver'|'harness'|'timeout'|'skip', mech, msg)"""
    if isinstance(exc, Refuted):
        return "violation", exc.mechanism, exc.message
    if isinstance(exc, Skip):
        return "skip", "", str(exc)
    if isinstance(exc, CaseTimeout):
        return "timeout", "", "case time limit"
    e = exc
    while e is not None:
        if isinstance(e, (gurobipy.SolverInconclusive, MemoryError)):
            return "solver", "", str(e)
        e = e.__cause__
    tb = traceback.extract_tb(exc.__traceback__)
    files = [os.path.realpath(f.filename) for f in tb]
    repo = os.path.realpath(REPO) + os.sep
    ver = os.path.realpath(VERIF) + os.sep
    shim = ver + "shim" + os.sep
    last_h = max([i for i, f in enumerate(files)
                  if f.startswith(ver) and not f.startswith(shim)] or [-1])
    in_repo = any(f.startswith(repo) for f in files[last_h + 1:])
    text = "".join(traceback.format_exception(exc))[-1800:]
    if in_repo:
        return "violation", "exception", "%s: %s\n%s" % (type(exc).__name__,
                                                         exc, text)
    if isinstance(exc, (AttributeError, TypeError, NameError, ImportError)):
        return "harness", "", text
    return "violation", "exception", "unusable result: " + text


def _run_case(args):
    r = _run_once(args)
    if r[2] != "violation":
        return r
    # judge it again with every integer optimum re-derived
    gurobipy.PARANOID = True
    try:
        q = _run_once(args)
    finally:
        gurobipy.PARANOID = False
    if q[2] in ("ok", "skip", "solver"):
        q[4]["withdrawn:solver"] = 1
        return q[:2] + ("solver", ) + q[3:]
    if q[2] == "violation":
        r = q
    if _ABORT is not None and not _CHECK.match(r[3]):
        with _ABORT.get_lock():
            _ABORT.value += 1
    return r


def _run_once(args):
    sname, index, seed, tier = args
    sec = _CHECK.sections[sname]
    c = Case(sname, index)
    if _ABORT is not None and _ABORT.value > 24:
        return sname, index, "aborted", None, {}, [], None, 0.
    h = int(hashlib.sha1(
        ("%s/%s" % (_CHECK.prop, sname)).encode()).hexdigest()[:8], 16)
    rng = np.random.default_rng([seed, h, index])
    torch.manual_seed(int(rng.integers(2**31)))
    np.random.seed(int(rng.integers(2**31)))
    g0 = collections.Counter(gurobipy.COUNTERS)
    t0 = time.time()
    status, viol = "ok", None
    gurobipy.INCUMBENT_HOOK = None
    del gurobipy.MONITORS[:]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sec.timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sec.fn(c, rng, index)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        status, mech, msg = _classify(e)
        if status == "violation":
            viol = {"section": sname, "index": index, "seed": seed,
                    "tier": tier, "mechanism": mech, "message": msg}
        elif status in ("harness", ):
            viol = {"section": sname, "index": index, "message": msg}
    finally:
        signal.alarm(0)
        if c.tmp:
            shutil.rmtree(c.tmp, ignore_errors=True)
    g = collections.Counter(gurobipy.COUNTERS)
    g.subtract(g0)
    for k, v in g.items():
        if v:
            c.counts["solver:" + k] += v
    return (sname, index, status, viol, dict(c.counts), sorted(c.keys),
            c.sample, time.time() - t0)


def _serve(conn):
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        conn.send(_run_case(job))


def _work(ctx, jobs, nproc, deadline):
    """
    Results of the jobs as they come; None when the deadline passes.  A worker
    that dies or hangs inside a native library costs its case, not the run.
    """
    live = {}

    def start():
        mine, theirs = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(theirs, ), daemon=True)
        p.start()
        theirs.close()
        live[mine] = [p, None, None]
        return mine

    def give(conn):
        job = queue.pop() if queue else None
        live[conn][1] = job
        if job is None:
            with contextlib.suppress(OSError):
                conn.send(None)
        else:
            live[conn][2] = time.time() + _CHECK.sections[job[0]].timeout + 30
            conn.send(job)

    def drop(conn):
        p, job, _ = live.pop(conn)
        p.kill()
        p.join()
        conn.close()
        return (job[0], job[1], "solver", None, {"worker_lost": 1}, [], None,
                0.)

    queue = list(reversed(jobs))
    try:
        for _ in range(nproc):
            give(start())
        left = len(jobs)
        while left:
            now = time.time()
            if now > deadline:
                yield None
                return
            busy = [c for c in live if live[c][1] is not None]
            got = multiprocessing.connection.wait(busy, timeout=1.)
            for conn in busy:
                r = None
                if conn in got:
                    try:
                        r = conn.recv()
                    except (EOFError, OSError):
                        r = drop(conn)
                elif time.time() > live[conn][2]:
                    r = drop(conn)
                if r is None:
                    continue
                left -= 1
                give(conn if conn in live else start())
                yield r
    finally:
        for conn in list(live):
            p = live.pop(conn)[0]
            p.kill()
            p.join()
            conn.close()


class Check:
    def __init__(self, prop, rule, assumptions=(), wall_limit=780):
        self.prop, self.rule = prop, rule
        self.assumptions = list(assumptions)
        self.sections = collections.OrderedDict()
        self.wall_limit = wall_limit
        self._known = None

    def section(self, quick, thorough, name=None, floor=None, timeout=200):
        def deco(fn):
            n = name or fn.__name__
            self.sections[n] = Section(n, fn, quick, thorough, floor, timeout)
            return fn

        return deco

    def match(self, v):
        """The listed findings this violation is an instance of."""
        if self._known is None:
            self._known = self.known()
        return [e for e in self._known if e["mechanism"] == v["mechanism"] and
                (not e.get("section") or e["section"] == v["section"])]

    def known(self):
        try:
            with open(KNOWN) as f:
                entries = json.load(f)["findings"]
        except FileNotFoundError:
            return []
        return [e for e in entries if e["property"] == self.prop and
                e.get("status", "open") == "open"]

    def main(self, argv=None):
        global _CHECK, _ABORT
        argv = sys.argv[1:] if argv is None else argv
        _CHECK = self
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        if "--thorough" in argv:
            tier = "thorough"
        if "--replay" in argv:
            with open(argv[argv.index("--replay") + 1]) as f:
                r = json.load(f)
            res = _run_case((r["section"], r["index"], r["seed"], r["tier"]))
            print(res[2], json.dumps(res[3], indent=1))
            sys.exit(1 if res[2] == "violation" else 0)
        only = [a.split("=")[1] for a in argv if a.startswith("--only=")]
        t0 = time.time()
        jobs = []
        for s in self.sections.values():
            if only and s.name not in only:
                continue
            jobs.extend((s.name, i, seed, tier) for i in range(s.count(tier)))
        # interleave the sections so that long ones do not trail
        order = np.random.default_rng(0).permutation(len(jobs))
        jobs = [jobs[k] for k in order]
        limit = float(os.environ.get(
            "VERIF_WALL", self.wall_limit if tier == "quick" else 840))
        nproc = min(int(os.environ.get("VERIF_JOBS", "8")),
                    max(1, os.cpu_count() or 1), max(1, len(jobs)))
        ctx = multiprocessing.get_context("fork")
        _ABORT = ctx.Value("i", 0)
        counts = collections.Counter()
        done = collections.Counter()
        keys = collections.defaultdict(set)
        stat = collections.Counter()
        samples, viols, errors = [], [], []
        cut = False
        stimes = collections.Counter()
        sys.stdout.flush()
        with contextlib.closing(
                _work(ctx, jobs, nproc, t0 + limit)) as results:
            for r in results:
                if r is None:
                    cut = True
                    break
                sname, index, status, viol, cc, kk, sample, dt = r
                stat[status] += 1
                stat[sname + "/" + status] += 1
                stimes[sname] += dt
                counts.update(cc)
                keys[sname].update(kk)
                if status in ("ok", "violation"):
                    done[sname] += 1
                if status == "violation":
                    viols.append(viol)
                elif status == "harness":
                    errors.append(viol)
                if sample is not None and len(
                        [s for s in samples if s["section"] == sname]) < 2:
                    samples.append(dict(sample, section=sname, index=index))
        wall = time.time() - t0
        known = self.known()
        real = []
        hit = collections.Counter()
        for v in viols:
            k = self.match(v)
            if k:
                hit[k[0]["id"]] += 1
            else:
                real.append(v)
        for e in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        os.makedirs(EVIDENCE, exist_ok=True)
        evals = sum(v for k, v in counts.items() if k.startswith("monitor:"))
        per = {}
        for s in self.sections.values():
            if only and s.name not in only:
                continue
            per[s.name] = {
                "cases_planned": s.count(tier),
                "cases_judged": done[s.name],
                "skipped_out_of_domain": stat[s.name + "/skip"],
                "inconclusive_solver": stat[s.name + "/solver"],
                "inconclusive_timeout": stat[s.name + "/timeout"],
                "distinct_nontrivial": len(keys[s.name]),
                "cpu_s": round(stimes[s.name], 2),
            }
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": int(evals),
                "distinct_nontrivial": int(
                    sum(len(k) for k in keys.values())),
                "rule": self.rule,
                "samples": samples[:12] or [{"none": True}],
                "cases": int(sum(done.values())),
                "sections": per,
                "observed": {k: int(v) for k, v in sorted(counts.items())},
                "known_findings_hit": dict(hit),
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(real),
        }
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if real:
            rd = os.path.join(EVIDENCE, "replay")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for v in real:
                m = (v["section"], v["mechanism"])
                if m in seen:
                    continue
                seen.add(m)
                path = os.path.join(
                    rd, "%s-%s-%d-%s.json" % (self.prop, v["section"], seed,
                                              v["index"]))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  [%s] %s: %s" % (v["section"], v["mechanism"],
                                         v["message"][:1500]))
                if len(seen) >= 6:
                    break
            print("%s: %d of %d judged cases refuted" %
                  (self.prop, len(real), sum(done.values())))
            sys.exit(1)
        bad = []
        for e in errors[:3]:
            bad.append("harness error in %s[%d]: %s" % (
                e["section"], e["index"], e["message"]))
        for s in self.sections.values():
            if only and s.name not in only:
                continue
            n = s.count(tier)
            floor = s.floor if s.floor is not None else .5
            if done[s.name] < floor * n * (.2 if cut else 1.):
                bad.append("section %s judged only %d of %d cases" %
                           (s.name, done[s.name], n))
            if n and not keys[s.name]:
                bad.append("section %s saw no non-trivial case" % s.name)
        if evals == 0:
            bad.append("no monitor evaluation")
        if bad:
            print("INCONCLUSIVE property=%s" % self.prop)
            for b in bad:
                print("  " + b)
            sys.exit(2)
        print("%s: held on %d monitor evaluations, %d cases (%d distinct "
              "non-trivial), %.1f s%s" %
              (self.prop, evals, sum(done.values()),
               sum(len(k) for k in keys.values()), wall,
               ", cut at the time limit" if cut else ""))
        for n, p in per.items():
            print("  %-42s %d/%d judged, %d skipped, %d inconclusive, %.1f "
                  "cpu-s" % (n, p["cases_judged"], p["cases_planned"],
                             p["skipped_out_of_domain"],
                             p["inconclusive_solver"] +
                             p["inconclusive_timeout"], p["cpu_s"]))
        sys.exit(0)
