"""Shared driver of all checks: generated-input search with Hypothesis, sharded over processes.

A check module (checks/<ID>.py) defines PROPERTY, RULE and SUBS, a list of Sub.  A Sub pairs a Hypothesis strategy of
JSON-serialisable cases with a function run(case) that executes the case against the real code in /repo and raises
Violation when the property does not hold.  run(case) returns (nontrivial, labels).

Everything is a pure function of the code in /repo and VERIF_SEED.  A failure is shrunk by Hypothesis and written, as
the plain JSON case, to replays/; `run_check.py --replay FILE` re-executes that case without Hypothesis.
"""
import os

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")

import contextlib
import hashlib
import json
import multiprocessing as mp
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True


def bootstrap():
    """Import third-party code, then the code under test from REPO's working tree (never from stale bytecode)."""
    warnings.filterwarnings("ignore")
    if TOOLS_SITE not in sys.path:
        sys.path.append(TOOLS_SITE)  # only hypothesis (and its deps) is missing from the repo's own environment
    import matplotlib

    matplotlib.use("Agg")
    import gymnasium  # noqa: F401
    import hypothesis  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import numpy as np  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.interpolate  # noqa: F401

    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, os.path.join(REPO, "src"))
    import gym_electric_motor

    assert os.path.abspath(gym_electric_motor.__file__).startswith(os.path.abspath(REPO) + os.sep), (
        gym_electric_motor.__file__
    )
    import gem_controllers  # noqa: F401

    warnings.filterwarnings("ignore")


class Violation(Exception):
    """The property does not hold for the case.  key identifies the failing call site / input class."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class _StopShrink(KeyboardInterrupt):
    pass


class _TooSlow(BaseException):
    """CPU budget of one case exhausted (e.g. an adaptive solver grinding along a diverging drive); see case_budget."""


CASE_CPU_S = 12.0  # ordinary cases take 0.001 .. 1 s of CPU time


_armed = [False]


def _on_budget(*_):
    if _armed[0]:
        raise _TooSlow()


@contextlib.contextmanager
def case_budget(seconds):
    """Give up on a case after `seconds` of CPU time.  Nothing is concluded from such a case, it is only counted."""
    signal.signal(signal.SIGPROF, _on_budget)
    _armed[0] = True
    signal.setitimer(signal.ITIMER_PROF, seconds, 0.5)  # repeated, in case a callback swallows the exception
    try:
        yield
    finally:
        _armed[0] = False
        signal.setitimer(signal.ITIMER_PROF, 0)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, max_failing=150, cpu_s=CASE_CPU_S):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.shards = shards
        self.max_failing = max_failing
        self.cpu_s = cpu_s


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def dumps(case):
    return json.dumps(_jsonable(case), sort_keys=True)


def _from_repo(tb):
    """True if the exception was raised inside the code under test (called by the harness with a valid input)."""
    src = os.path.join(os.path.abspath(REPO), "src") + os.sep
    seen = False
    for fr in traceback.extract_tb(tb):
        f = os.path.abspath(fr.filename)
        if f.startswith(os.path.join(VERIF, "")):
            seen = False
        elif f.startswith(src):
            seen = True
    return seen


def run_guarded(sub, case):
    """Run one case.  Exceptions out of the code under test become violations, anything else is a harness error."""
    try:
        return sub.run(case)
    except Violation:
        raise
    except Exception as e:
        if _from_repo(e.__traceback__):
            fr = [
                f for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(REPO + os.sep)
            ][-1]
            site = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}"
            raise Violation(
                f"unexpected {type(e).__name__} out of {site} on a valid input: {str(e)[:300]}", f"exc:{site}"
            ) from e
        raise


def _worker(args):
    modname, sub_idx, shard, n, seed, known_keys, limit = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = sys.modules[modname]
    sub = mod.SUBS[sub_idx]
    res = dict(
        sub=sub.name, evaluations=0, nontrivial=[], labels={}, samples=[], failure=None, error=None, known=0, wall=0.0
    )
    seen = set()
    state = dict(failing=0, best=None, t_fail=None)
    t0 = time.time()

    def body(case):
        case = json.loads(dumps(case))  # the very object a replay will see
        now = time.time()
        if (state["t_fail"] and now - state["t_fail"] > 40) or now - t0 > limit:
            raise _StopShrink()
        res["evaluations"] += 1
        try:
            with case_budget(sub.cpu_s):
                nontrivial, labels = run_guarded(sub, case)
        except _TooSlow:
            _armed[0] = False
            signal.setitimer(signal.ITIMER_PROF, 0)
            res["labels"]["given up: CPU budget of the case"] = res["labels"].get("given up: CPU budget of the case", 0) + 1
            return
        except Violation as v:
            if v.key is not None and v.key in known_keys:
                res["known"] += 1
                return
            text = dumps(case)
            state["failing"] += 1
            state["t_fail"] = state["t_fail"] or time.time()
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, str(v), v.key)
            if state["failing"] >= sub.max_failing:
                raise _StopShrink() from None
            raise
        for lab in labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if nontrivial:
            h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2 and (len(seen) in (3, 17) or n < 20):
                    res["samples"].append(dict(sub=sub.name, case=case, labels=list(labels)))

    body.__name__ = f"{sub.name}"
    runner = given(sub.strategy)(body)
    runner = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
        report_multiple_bugs=False,
        print_blob=False,
    )(runner)
    runner = hypothesis.seed(seed * 1000003 + sub_idx * 1009 + shard)(runner)
    import io

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runner()
    except _StopShrink:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state["best"] is not None:
        res["failure"] = state["best"]
    res["nontrivial"] = sorted(seen)
    res["wall"] = time.time() - t0
    return res


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def write_replay(prop, sub, text, msg, key):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=sub, message=msg, key=key, case=json.loads(text)), f, indent=1)
    return path


def main(mod, tier, seed, only=None, scale=1.0):
    prop = mod.PROPERTY
    t0 = time.time()
    known = load_known(prop)
    violations, errors, known_lines = [], [], []
    if hasattr(mod, "prepare"):
        mod.prepare()
    subs = {s.name: s for s in mod.SUBS}
    assert len(subs) == len(mod.SUBS), "duplicate sub names"
    # 1. the listed findings, re-executed
    for k in known:
        try:
            run_guarded(subs[k["sub"]], k["case"])
        except Violation as v:
            if v.key == k["key"]:
                known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
            else:
                path = write_replay(prop, k["sub"], dumps(k["case"]), str(v), v.key)
                violations.append((k["sub"], str(v), path))
        except Exception as e:  # noqa: BLE001
            errors.append("".join(traceback.format_exception(type(e), e, e.__traceback__)))
    known_keys = frozenset(k["key"] for k in known)
    # 2. the search
    tasks = []
    for i, s in enumerate(mod.SUBS):
        if only and s.name not in only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * scale))
        shards = s.shards if tier == "quick" else max(s.shards, 8)
        shards = min(shards, n)
        for sh in range(shards):
            tasks.append((mod.__name__, i, sh, (n + shards - 1) // shards, seed, known_keys, 200 if tier == "quick" else 5000))
    procs = min(8, os.cpu_count() or 1, len(tasks))
    ctx = mp.get_context("fork")
    # heavy subs first
    with ctx.Pool(procs, maxtasksperchild=8) as pool:
        results = pool.map(_worker, tasks, chunksize=1)
    evaluations, labels, nontrivial, samples, per_sub, n_known = 0, {}, set(), [], {}, 0
    for r in results:
        evaluations += r["evaluations"]
        n_known += r["known"]
        nontrivial.update(r["sub"] + ":" + h for h in r["nontrivial"])
        p = per_sub.setdefault(
            r["sub"], dict(evaluations=0, distinct_nontrivial=set(), excluded_known=0, labels={}, cpu_s=0.0)
        )
        p["evaluations"] += r["evaluations"]
        p["excluded_known"] += r["known"]
        p["cpu_s"] += r["wall"]
        p["distinct_nontrivial"].update(r["nontrivial"])
        for lab, c in r["labels"].items():
            p["labels"][lab] = p["labels"].get(lab, 0) + c
        if len([s for s in samples if s["sub"] == r["sub"]]) < 2:
            samples += r["samples"]
        if r["failure"]:
            text, msg, key = r["failure"]
            path = write_replay(prop, r["sub"], text, msg, key)
            violations.append((r["sub"], msg, path))
        if r["error"]:
            errors.append(r["error"])
    for p in per_sub.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
        p["cpu_s"] = round(p["cpu_s"], 2)
        p["labels"] = dict(sorted(p["labels"].items()))
    wall = time.time() - t0
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE,
            samples=[_truncate(s) for s in samples[:40]],
            per_sub=per_sub,
            excluded_known_findings=n_known,
        ),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    ev["coverage"]["violation_details"] = [dict(sub=s, message=m[:600], replay=p) for s, m, p in violations]
    ev["coverage"]["known_findings"] = known_lines
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    for s, m, p in violations:
        print(f"  {s}: {m[:1000]}")
    for p in dict.fromkeys(p for _, _, p in violations):
        print(f"VIOLATION property={prop} replay={p}")
    print(
        f"{prop} tier={tier} seed={seed} evaluations={evaluations} distinct_nontrivial={len(nontrivial)} "
        f"violations={len(violations)} errors={len(errors)} wall={wall:.1f}s"
    )
    if violations:
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    return 0


def _truncate(s):
    text = json.dumps(s)
    if len(text) <= 3000:
        return s
    return dict(sub=s["sub"], labels=s["labels"], case_json_truncated=text[:3000])


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    if hasattr(mod, "prepare"):
        mod.prepare()
    sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
    try:
        run_guarded(sub, rec["case"])
    except Violation as v:
        print(f"  {sub.name}: {v}")
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    print(f"{mod.PROPERTY} replay of {path}: the property holds for this case")
    return 0
