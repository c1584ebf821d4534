"""Property-based check runner: generation, shrinking, replay files, evidence.

A check module defines ID, RULE and SUBS (a list of Sub).  Every Sub has a Hypothesis strategy
producing a JSON-able case and a function run(case, ctx) which raises Violation when the
property does not hold on the case and returns True when the case is non-trivial.
"""

import collections
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FAST = os.environ.get("VERIF_FAST") == "1"  # mutation sweeps only: stop at the first failure, no shrinking


class Violation(Exception):
    """The property does not hold on the case."""


class HarnessError(Exception):
    """The check itself failed; never reported as a violation."""


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, pinned=(), budget=25.0, dtype=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.pinned = list(pinned)
        self.budget = budget


class Ctx:
    """Handed to run(): labels, known findings, scratch directory."""

    def __init__(self, prop, known_ids, scratch):
        self.prop, self.known_ids, self.scratch = prop, known_ids, scratch
        self.labels = collections.Counter()
        self.known_seen = collections.Counter()
        self._n = 0

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def known(self, fid, msg):
        """A failure that matches the signature of finding `fid`: suppressed only if it is listed."""
        if fid not in self.known_ids:
            raise Violation(f"[{fid}] {msg}")
        self.known_seen[fid] += 1

    def tmpdir(self):
        self._n += 1
        d = os.path.join(self.scratch, f"d{os.getpid()}_{self._n}")
        os.makedirs(d)
        return d


# ------------------------------------------------------------------ known findings file
def read_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                rest = line.split(f"property={prop} ", 1)[1]
                fid = rest.split("id=", 1)[1].split()[0]
                out[fid] = rest.split(fid, 1)[1].strip()
    return out


# ------------------------------------------------------------------ running one case
def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


class quiet:
    """Redirect stdout of the code under test; restore torch default dtype and numpy RNG state."""

    def __enter__(self):
        import numpy as np
        import torch
        import warnings

        self.out = sys.stdout
        self.null = open(os.devnull, "w")
        sys.stdout = self.null
        self.dt = torch.get_default_dtype()
        self.cwd = os.getcwd()
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        np.random.seed(12345)
        torch.manual_seed(12345)
        return self

    def __exit__(self, *a):
        import torch

        self.w.__exit__(*a)
        sys.stdout = self.out
        self.null.close()
        torch.set_default_dtype(self.dt)
        os.chdir(self.cwd)
        return False


def run_case(sub, case, ctx):
    with quiet():
        try:
            return sub.run(case, ctx)
        except (Violation, HarnessError):
            raise
        except MemoryError:
            raise
        except Exception as e:  # noqa: BLE001
            if type(e).__module__.startswith("hypothesis"):
                raise
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            if in_repo(e.__traceback__):
                raise Violation("unexpected exception on valid input:\n" + txt) from e
            if isinstance(e, (ValueError, IndexError, RuntimeError)) and not isinstance(e, NotImplementedError):
                # the result has a shape/type the comparison cannot even be carried out on
                raise Violation("the result could not be compared:\n" + txt) from e
            raise HarnessError(txt) from e


def canon(case):
    return json.dumps(case, sort_keys=True, default=_jd)


def _jd(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(str(type(o)))


def explore(prop, sub, n, seed, budget, known_ids, scratch, pinned):
    """Search one sub-property; returns a JSON-able report."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    ctx = Ctx(prop, known_ids, scratch)
    t0 = time.time()
    st = dict(evals=0, skipped=0, fails=[], t_fail=None)
    distinct, samples = set(), []
    curfile = os.path.join(scratch, f"current_{os.getpid()}.json")

    def once(case):
        with open(curfile, "w") as f:
            f.write(canon({"sub": sub.name, "case": case}))
        st["evals"] += 1
        nt = run_case(sub, case, ctx)
        if nt:
            key = canon(case)
            h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
            if h not in distinct:
                distinct.add(h)
                if len(samples) < 3 or (len(samples) < 6 and len(distinct) % 37 == 0):
                    samples.append({"sub": sub.name, "case": key if len(key) < 400 else key[:400] + "..."})
        return nt

    herr = None
    if pinned:
        for case in sub.pinned:
            try:
                once(case)
            except Violation as v:
                st["fails"].append((0, case, str(v)))
                break
            except HarnessError as e:
                herr = str(e)

    if not st["fails"] and herr is None and n > 0:

        @hypothesis.seed(seed)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            phases=[Phase.generate] if FAST else [Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            print_blob=False,
            report_multiple_bugs=False,
        )
        @given(sub.strategy)
        def test(case):
            now = time.time()
            if st["t_fail"] is None:
                if now - t0 > budget:
                    st["skipped"] += 1
                    return
            elif now - st["t_fail"] > 45.0:
                return  # shrinking time is over
            try:
                once(case)
            except Violation as v:
                if st["t_fail"] is None:
                    st["t_fail"] = time.time()
                st["fails"].append((len(canon(case)), case, str(v)))
                raise

        try:
            test()
        except Violation:
            pass
        except HarnessError as e:
            herr = str(e)
        except BaseException as e:  # noqa: BLE001  (Flaky after the shrinking cap, etc.)
            if not st["fails"]:
                herr = "".join(traceback.format_exception(type(e), e, e.__traceback__))

    violation = None
    if st["fails"]:
        # the last failing case is the one Hypothesis shrank to; prefer the smallest that reproduces
        order = sorted(st["fails"][-200:], key=lambda r: r[0])
        t1 = time.time()
        for _, case, msg in order[:5]:
            try:
                run_case(sub, case, ctx)
            except Violation as v:
                violation = dict(sub=sub.name, case=case, message=str(v), reproduced=True)
                break
            except Exception:  # noqa: BLE001
                pass
            if time.time() - t1 > 60:
                break
        if violation is None:
            _, case, msg = order[0]
            violation = dict(sub=sub.name, case=case, message=msg, reproduced=False)

    return dict(
        sub=sub.name,
        evals=st["evals"],
        skipped=st["skipped"],
        distinct=sorted(distinct),
        samples=samples,
        labels=dict(ctx.labels),
        known=dict(ctx.known_seen),
        violation=violation,
        error=herr,
        wall=time.time() - t0,
    )


# ------------------------------------------------------------------ process pool by fork
def run_tasks(prop, tasks, known_ids, scratch, workers):
    """tasks: list of (sub, n, seed, budget, pinned). Returns reports in order."""
    results = [None] * len(tasks)
    pending = list(enumerate(tasks))
    live = {}

    def start(i, task):
        sub, n, seed, budget, pinned = task
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            live[pid] = (i, task, time.time())
            return
        code = 3
        try:
            d = os.path.join(scratch, f"w{i}")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            rep = explore(prop, sub, n, seed, budget, known_ids, d, pinned)
            tmp = os.path.join(d, "report.tmp")
            with open(tmp, "w") as f:
                json.dump(rep, f, default=_jd)
            os.rename(tmp, os.path.join(d, "report.json"))
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    while pending or live:
        while pending and len(live) < workers:
            start(*pending.pop(0))
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid, status = 0, 0
        if pid == 0:
            now = time.time()
            for p, (i, task, ts) in list(live.items()):
                if now - ts > task[3] + 240:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
            continue
        if pid not in live:
            continue
        i, task, ts = live.pop(pid)
        sub = task[0]
        d = os.path.join(scratch, f"w{i}")
        rp = os.path.join(d, "report.json")
        if os.path.exists(rp):
            results[i] = json.load(open(rp))
            if FAST and results[i]["violation"]:
                pending.clear()
            continue
        rep = dict(sub=sub.name, evals=0, skipped=0, distinct=[], samples=[], labels={}, known={},
                   violation=None, error=None, wall=time.time() - ts)
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        cur = [f for f in os.listdir(d) if f.startswith("current_")] if os.path.isdir(d) else []
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and cur:
            c = json.load(open(os.path.join(d, cur[0])))
            rep["violation"] = dict(sub=sub.name, case=c["case"], message=f"process died with signal {sig}",
                                    reproduced=False)
        else:
            rep["error"] = f"worker for {sub.name} ended without a report (status {status})"
        results[i] = rep
    return results


# ------------------------------------------------------------------ top level
def main(module, argv):
    prop = module.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    known = read_findings(prop)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        if "--replay" in argv:
            path = argv[argv.index("--replay") + 1]
            data = json.load(open(os.path.join(VERIF, path) if not os.path.isabs(path) else path))
            sub = next(s for s in module.SUBS if s.name == data["sub"])
            ctx = Ctx(prop, set(known), scratch)
            try:
                run_case(sub, data["case"], ctx)
            except Violation as v:
                print(str(v))
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print("replay: property holds on this case")
            return 0

        only = [a.split("=", 1)[1] for a in argv if a.startswith("--sub=")]
        subs = [s for s in module.SUBS if not only or s.name in only]
        workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
        tasks = []
        base = int(hashlib.sha256(f"{prop}:{seed}".encode()).hexdigest()[:12], 16)
        for j, s in enumerate(subs):
            if tier == "thorough":
                shards = 4
                for k in range(shards):
                    tasks.append((s, -(-s.thorough // shards), base + 1000 * j + k, 240.0, k == 0))
            else:
                # several independently seeded searches find more than one long one
                for k in range(getattr(module, "SHARDS", 3)):
                    tasks.append((s, s.quick, base + 1000 * j + k, s.budget, k == 0))
        reports = run_tasks(prop, tasks, set(known), scratch, workers)

        distinct, labels, seen = set(), collections.Counter(), collections.Counter()
        evals = skipped = 0
        samples, viols, errors, per = [], [], [], {}
        for r in filter(None, reports):
            evals += r["evals"]
            skipped += r["skipped"]
            distinct.update((r["sub"], h) for h in r["distinct"])
            for k, v in r["labels"].items():
                labels[f"{r['sub']}:{k}"] += v
            for k, v in r["known"].items():
                seen[k] += v
            samples.extend(r["samples"])
            if r["violation"]:
                viols.append(r["violation"])
            if r["error"]:
                errors.append(r["error"])
            p = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, skipped_after_budget=0, wall_s=0.0))
            p["evaluations"] += r["evals"]
            p["nontrivial"] += len(r["distinct"])
            p["skipped_after_budget"] += r["skipped"]
            p["wall_s"] = round(p["wall_s"] + r["wall"], 2)

        by_sub = collections.OrderedDict()
        for s in samples:
            by_sub.setdefault(s["sub"], []).append(s)
        picked = [s for v in by_sub.values() for s in v[:2]][:16]
        ev = dict(
            property=prop,
            tier=tier if tier in ("quick", "thorough") else "quick",
            seed=seed,
            level="exploration",
            coverage=dict(
                evaluations=evals,
                distinct_nontrivial=len(distinct),
                rule=module.RULE,
                samples=picked,
                per_subproperty=per,
                labels=dict(sorted(labels.items())),
                skipped_after_budget=skipped,
                known_findings_hit=dict(seen),
                violations=len(viols),
            ),
            wall_s=round(time.time() - t0, 2),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=_jd)

        for fid, text in known.items():
            if seen.get(fid):
                print(f"KNOWN-FINDING: property={prop} {fid} {text}")
        print(f"{prop} tier={tier} seed={seed} evaluations={evals} nontrivial={len(distinct)} "
              f"skipped={skipped} wall={ev['wall_s']}s")
        if viols:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for v in {v["sub"]: v for v in reversed(viols)}.values():
                path = os.path.join("replays", f"{prop}-{v['sub']}.json")
                with open(os.path.join(VERIF, path), "w") as f:
                    json.dump(dict(property=prop, seed=seed, **v), f, indent=1, default=_jd)
                print(f"--- {v['sub']}: {v['message'][:3000]}\ncase: {canon(v['case'])[:1500]}")
                print(f"VIOLATION property={prop} replay={path}")
            return 1
        if errors:
            for e in errors:
                print("HARNESS ERROR\n" + e, file=sys.stderr)
            return 2
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
