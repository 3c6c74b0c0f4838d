"""Runs the tasks of a property, escalates suspicious p-values, reports.

A task is a function of a `Ctx`; it runs the real code and tells the context
what it observed:

* ``ctx.p(label, p)``   a p-value whose null hypothesis is the property;
* ``ctx.p3(label, p, p_known, key)`` the same, plus the p-value under the law of
  a recorded defect (see known_findings.txt);
* ``ctx.fail(label, msg)``  a deterministic violation;
* ``ctx.event(name, k)``   counters of what was observed.

Verdicts: a deterministic failure is a violation.  A p-value below FLAG in
stage 1 only makes the task run again with fresh seeds and more samples; it is a
violation if the same label is then below CONFIRM, and the task is repeated
once more if it is in between.  The false alarm rate is about FLAG * CONFIRM
per label.
"""
import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAG = 1e-3
CONFIRM = 1e-6
TARGET_TIMEOUT = 240


class Abort(Exception):
    """The task can't go on after a recorded failure."""


class Timeout(BaseException):
    pass


class Ctx:
    def __init__(self, seed, n, tier):
        self.seed, self.n, self.tier = int(seed), int(n), tier
        self.rng = np.random.default_rng([self.seed, 2718])
        self.pv = {}
        self.pk = {}
        self.fails = []
        self.events = Counter()
        self.keys = set()
        self.samples = []
        self.required = []

    # -- observations ------------------------------------------------------
    def p(self, label, p):
        p = float(p)
        self.pv[label] = min(self.pv.get(label, 1.0), p) if np.isfinite(p) else 0.0

    def ps(self, labels, ps, prefix=""):
        for lb, p in zip(labels, ps):
            self.p(prefix + lb, p)

    def p3(self, label, p, p_known, key):
        self.p(label, p)
        self.pk[label] = (float(p_known), key)

    def fail(self, label, msg, known=None):
        if not any(f[0] == label for f in self.fails):
            self.fails.append((label, str(msg)[:3000], known))

    def check(self, cond, label, msg=""):
        self.event("checks")
        if not cond:
            self.fail(label, msg() if callable(msg) else msg)
        return bool(cond)

    def event(self, name, k=1):
        self.events[name] += int(k)

    def require(self, *names):
        self.required += names

    def distinct(self, *key):
        if len(self.keys) < 200000:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.keys.add(h)

    def distinct_arrays(self, *arrays):
        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            h.update(np.ascontiguousarray(a).tobytes())
        self.keys.add(h.digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    @contextlib.contextmanager
    def target(self, label):
        """The code under test must not raise in this block."""
        try:
            yield
        except (Abort, Timeout):
            raise
        except Exception:
            self.fail("exception: " + label, traceback.format_exc()[-2500:])
            raise Abort(label)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 60 else f"array{x.shape}"
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


class Task:
    def __init__(self, name, fn, n=1000, **kw):
        self.name, self.fn, self.n, self.kw = name, fn, n, kw


_TASKS = {}


def _alarm(*_):
    raise Timeout()


def _run(args):
    name, seed, n, tier, timeout = args
    t0 = time.time()
    task = _TASKS[name]
    ctx = Ctx(seed, n, tier)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    # Aesara logs failed local rewrites and prints; keep stdout for verdicts
    try:
        task.fn(ctx, **task.kw)
    except Abort:
        pass
    except Timeout:
        err = "timeout"
    except MemoryError:
        err = "out of memory"
    except Exception:
        # the monitors never raise when the code under test behaves
        ctx.fail("unexpected exception", traceback.format_exc()[-2800:])
    finally:
        signal.alarm(0)
    if err is None and not ctx.fails:
        for r in ctx.required:
            if not ctx.events[r]:
                err = f"the monitor never observed {r!r}"
    return dict(
        name=name, seed=seed, n=n, pv=ctx.pv, pk=ctx.pk, fails=ctx.fails, events=dict(ctx.events),
        keys=ctx.keys, samples=ctx.samples, err=err, t=time.time() - t0,
    )


def seed_of(base, name, stage):
    h = hashlib.blake2b(f"{base}/{name}/{stage}".encode(), digest_size=4).digest()
    return int.from_bytes(h, "big") % (2**31 - 1)


def known_findings(prop):
    """key -> description of the recorded (unrepaired) defects of `prop`."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                rest = line.split(None, 2)[2].strip()
                key, desc = rest.split(None, 1)
                out[key.split("=", 1)[1]] = desc
    return out


def run(prop, module, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    tasks = module.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in t.name]
    assert len({t.name for t in tasks}) == len(tasks), "duplicate task names"
    _TASKS.clear()
    _TASKS.update({t.name: t for t in tasks})
    known = known_findings(prop)
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = 780 if tier == "quick" else 6000
    timeout = 300 if tier == "quick" else 2400

    violations, findings, errors = [], {}, []
    events, keys, samples, pvals = Counter(), set(), [], 0
    minp = 1.0
    flagged = {}
    done = {}
    mult = getattr(module, "CONFIRM_MULT", 4)

    def absorb(r, stage):
        nonlocal pvals, minp
        events.update(r["events"])
        keys.update(r["keys"])
        if r["samples"] and len(samples) < 12:
            samples.append({"task": r["name"], "seed": r["seed"], "observed": r["samples"][0]})
        pvals += len(r["pv"])
        for label, msg, kkey in r["fails"]:
            if kkey is not None and kkey in known:
                findings.setdefault(kkey, f"{r['name']}: {label}: {msg}"[:300])
            else:
                violations.append(dict(task=r["name"], seed=r["seed"], n=r["n"], label=label, detail=msg))
        if r["err"]:
            errors.append(f"{r['name']}: {r['err']}")
        prev = flagged.get(r["name"])
        again = {}
        for label, p in r["pv"].items():
            if label not in r["pk"]:
                minp = min(minp, p)
            if stage == 1:
                if p < FLAG and label in r["pk"] and r["pk"][label][1] in known and p < CONFIRM and r["pk"][label][0] >= FLAG:
                    # as unlikely under the property as a violation, and the recorded law fits
                    pk, kkey = r["pk"][label]
                    findings.setdefault(kkey, f"{r['name']}: {label}: p={p:.1e} under the correct law, p={pk:.2g} under the recorded one (n={r['n']})")
                elif p < FLAG:
                    again[label] = p
                continue
            if label not in prev:
                continue
            if p < CONFIRM:
                if label in r["pk"]:
                    pk, kkey = r["pk"][label]
                    if pk > CONFIRM and kkey in known:
                        findings.setdefault(kkey, f"{r['name']}: {label}: p={p:.1e} under the correct law, p={pk:.2g} under the recorded one (n={r['n']})")
                        continue
                violations.append(dict(task=r["name"], seed=r["seed"], n=r["n"], label=label,
                                       detail=f"p={p:.3e} (n={r['n']}), first seen p={prev[label]:.3e}"))
            elif p < FLAG:
                again[label] = p
        flagged.pop(r["name"], None)
        if again and not any(v["task"] == r["name"] for v in violations):
            flagged[r["name"]] = again

    with mp.get_context("fork").Pool(jobs, maxtasksperchild=8) as pool:
        for stage in (1, 2, 3):
            names = [t.name for t in tasks] if stage == 1 else list(flagged)
            if stage > 1 and violations:
                break
            if time.time() - t0 > budget:
                if names:
                    errors.append("out of time with suspicious p-values: " + repr(flagged))
                break
            # long tasks first
            work = [(nm, seed_of(seed, nm, stage), _TASKS[nm].n * mult ** (stage - 1), tier, timeout) for nm in names]
            it = pool.imap_unordered(_run, work)
            for _ in range(len(work)):
                try:
                    r = it.next(timeout=max(1.0, budget + timeout - (time.time() - t0)))
                except mp.TimeoutError:
                    errors.append("watchdog")
                    break
                if verbose:
                    mn = min(r["pv"].items(), key=lambda kv: kv[1], default=("", 1))
                    print(f"# stage {stage} {r['name']}: {r['t']:.1f}s n={r['n']} min p {mn[1]:.1e} ({mn[0]}) of {len(r['pv'])}, "
                          f"{dict(r['events'])}, fails {[f[0] + ': ' + f[1][-200:] for f in r['fails']]} {r['err'] or ''}", flush=True)
                absorb(r, stage)
                if violations and tier == "quick" and stage == 1 and not verbose and time.time() - t0 > 120:
                    break

    wall = time.time() - t0
    report(prop, module, tier, seed, violations, findings, errors, events, keys, samples, pvals, minp, wall, len(tasks), only)
    if violations:
        return 1
    if errors:
        for e in errors[:5]:
            print("INCONCLUSIVE", e, file=sys.stderr)
        return 2
    return 0


def report(prop, module, tier, seed, violations, findings, errors, events, keys, samples, pvals, minp, wall, ntasks, only):
    if not only:
        ev = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=int(events.get("executions", 0)),
                distinct_nontrivial=len(keys),
                rule=module.RULE,
                samples=samples,
                tasks=ntasks,
                p_values=pvals,
                smallest_stage1_p=minp,
                observed={k: int(v) for k, v in sorted(events.items())},
                known_findings_observed=sorted(findings),
                inconclusive=errors[:5],
            ),
            assumptions=getattr(module, "ASSUMPTIONS", []),
            wall_s=round(wall, 2),
            violations=len(violations),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, d in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {d}")
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for v in violations:
            if v["task"] in seen:
                continue
            seen.add(v["task"])
            h = hashlib.blake2b(json.dumps(v, sort_keys=True).encode(), digest_size=6).hexdigest()
            path = os.path.join(HERE, "replays", f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, **v), f, indent=1)
            if len(seen) <= 5:
                print(f"  {v['task']}: {v['label']}: {v['detail'][-700:]}")
                print(f"VIOLATION property={prop} replay={path}")
    n = events.get("executions", 0)
    print(f"{prop} {tier}: {ntasks} tasks, {n} executions, {len(keys)} distinct cases, {pvals} p-values, "
          f"{len(violations)} violations, {len(errors)} inconclusive, {wall:.0f}s")


def replay(prop, module, path):
    with open(path) as f:
        v = json.load(f)
    _TASKS.update({t.name: t for t in module.tasks(v["tier"])})
    r = _run((v["task"], v["seed"], v["n"], v["tier"], 3000))
    print("task", v["task"], "seed", v["seed"], "n", v["n"])
    print("recorded:", v["label"], v["detail"])
    print("now: fails", r["fails"])
    if v["label"] in r["pv"]:
        print("now: p =", r["pv"][v["label"]])
    bad = bool(r["fails"]) or r["pv"].get(v["label"], 1) < CONFIRM
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0
