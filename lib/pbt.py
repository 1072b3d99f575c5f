"""Property-based testing runner shared by all checks.

A check module defines PROPERTY, RULE, ASSUMPTIONS and SUBS: a list of `Sub`.
Every `Sub` has a Hypothesis strategy that produces a JSON-serialisable case and an
oracle `check(case)` which
  * returns a list of labels (classes the case falls in; "trivial" marks it trivial),
  * raises `Discard` if the precondition of the property does not hold,
  * raises `Violation` if the property does not hold.
An exception which passes through code of /repo is a violation, too (the property
speaks about a value which the code did not deliver), unless the oracle caught it.
Any other exception is an error of the harness: exit code 2, no VIOLATION line.
"""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Optional

VERIF = Path(__file__).resolve().parent.parent
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
HYPOTHESIS_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    pass


class Discard(Exception):
    pass


class HitBreakpoint(Exception):
    """The code under test stopped in the debugger instead of returning a value."""


class _StopShrinking(BaseException):
    pass


def _breakpoint_hook(*args, **kwargs):
    raise HitBreakpoint("The code under test entered the debugger")


def setup_runtime():
    sys.breakpointhook = _breakpoint_hook
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    if HYPOTHESIS_PATH not in sys.path:
        sys.path.append(HYPOTHESIS_PATH)
    import numpy as np

    np.seterr(all="ignore")


def require(condition, message, **values):
    """The oracle: raise a violation if the condition does not hold."""
    if not condition:
        if values:
            message += " | " + ", ".join(f"{k}={_short(v)}" for k, v in values.items())
        raise Violation(message)


def _short(value):
    import numpy as np

    if isinstance(value, np.ndarray):
        return np.array2string(value, precision=10, separator=",").replace("\n", "")
    return repr(value)


def discard_unless(condition):
    if not condition:
        raise Discard()


@dataclass
class Sub:
    name: str
    strategy: Any
    check: Callable[[dict], Optional[list]]
    quick: int = 300
    thorough: int = 0
    shards: int = 1
    thorough_shards: int = 8
    explicit: list = field(default_factory=list)
    cpu_limit: float = 20.0  # [s] of one case, typically below 0.1 s

    def n_cases(self, tier):
        if tier == "thorough":
            return self.thorough or self.quick * 10
        return self.quick


class _Null(io.TextIOBase):
    def write(self, text):
        return len(text)


class _OutOfTime(BaseException):
    """Raised inside of the code which does not return."""


def _on_alarm(*_):
    raise _OutOfTime()


@contextlib.contextmanager
def limited(cpu_seconds):
    """Limits the processor time (not affected by the load of the machine)."""
    previous = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, previous)


def _limit_memory(gigabytes=3):
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    pages = int(Path("/proc/self/statm").read_text().split()[0])
    limit = pages * resource.getpagesize() + gigabytes * 2**30
    resource.setrlimit(resource.RLIMIT_AS, (limit, hard))


def _has_repo_frame(err):
    tb = err.__traceback__
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if name.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def execute(sub: Sub, case: dict):
    """Run the oracle on one case.  Returns (status, detail)."""
    import numpy as np

    np.random.seed(0)
    try:
        with contextlib.redirect_stdout(_Null()), limited(sub.cpu_limit):
            labels = sub.check(json.loads(json.dumps(case)))
        return "ok", list(labels or [])
    except Discard:
        return "discard", []
    except Violation as err:
        return "violation", str(err)
    except _OutOfTime as err:
        if _has_repo_frame(err):
            return "endless", f"No answer after {sub.cpu_limit} s of processor time"
        raise RuntimeError("case of the check itself takes too long") from err
    except Exception as err:
        if _has_repo_frame(err):
            frames = traceback.extract_tb(err.__traceback__)
            where = [
                f for f in frames if os.path.realpath(f.filename).startswith(REPO + os.sep)
            ][-1]
            return (
                "violation",
                f"{type(err).__name__}: {err} (raised through "
                f"{os.path.relpath(where.filename, REPO)}:{where.lineno} {where.name})",
            )
        raise


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _run_shard(args):
    module_name, sub_index, shard, n_cases, seed_value, time_cap, shrink_cap = args
    setup_runtime()
    _limit_memory()
    import importlib

    module = importlib.import_module(module_name)
    sub = module.SUBS[sub_index]

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {
        "sub": sub.name,
        "shard": shard,
        "evaluations": 0,
        "discarded": 0,
        "labels": {},
        "keys": set(),
        "samples": [],
        "failure": None,
        "error": None,
        "truncated": False,
    }
    start = time.monotonic()
    first_failure = [None]

    def account(case, labels):
        for label in labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if "trivial" in labels:
            return
        key = case_key(case)
        if key not in stats["keys"]:
            stats["keys"].add(key)
            n_seen = len(stats["keys"])
            if n_seen in (5, 40, 200):
                stats["samples"].append({"sub": sub.name, "case": case, "labels": labels})

    def run_one(case):
        now = time.monotonic()
        if first_failure[0] is None:
            if now - start > time_cap:
                stats["truncated"] = True
                return
        elif now - first_failure[0] > shrink_cap:
            raise _StopShrinking()
        status, detail = execute(sub, case)
        stats["evaluations"] += 1
        if status == "discard":
            stats["discarded"] += 1
        elif status == "ok":
            account(case, detail)
        else:
            if first_failure[0] is None:
                first_failure[0] = now
            size = len(json.dumps(case))
            known = stats["failure"]
            if known is None or size <= known["size"]:
                stats["failure"] = {"case": case, "message": detail, "size": size}
            if status == "endless":
                raise _StopShrinking()
            raise Violation(detail)

    try:
        if shard == 0:
            for case in sub.explicit:
                run_one(case)

        @hypothesis.seed(seed_value * 7919 + shard * 101 + sub_index)
        @settings(
            max_examples=n_cases,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.target, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(sub.strategy)
        def test(case):
            run_one(case)

        with contextlib.redirect_stderr(_Null()):
            test()
    except _StopShrinking:
        pass
    except Violation:
        pass
    except BaseException as err:
        if isinstance(err, KeyboardInterrupt):
            raise
        if stats["failure"] is None:
            stats["error"] = "".join(traceback.format_exception(err))
    stats["keys"] = sorted(stats["keys"])
    return stats


def load_known(property_id):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    data = json.loads(path.read_text())
    return [
        f
        for f in data.get("findings", [])
        if f["property"] == property_id and f.get("status") == "open"
    ]


def run_property(module_name, tier, seed_value):
    import importlib

    start = time.monotonic()
    setup_runtime()
    module = importlib.import_module(module_name)
    prop = module.PROPERTY

    # Listed findings: each one is a concrete input which still fails
    for finding in load_known(prop):
        sub = next(s for s in getattr(module, "FINDINGS", []) if s.name == finding["probe"])
        status, detail = execute(sub, finding["case"])
        if status == "violation":
            print(f"KNOWN-FINDING: property={prop} {finding['id']}: {finding['what']}")

    time_cap = 150 if tier == "quick" else 1500
    shrink_cap = 45 if tier == "quick" else 180
    tasks = []
    for ii, sub in enumerate(module.SUBS):
        total = sub.n_cases(tier)
        shards = sub.shards if tier == "quick" else max(sub.shards, sub.thorough_shards)
        for shard in range(shards):
            tasks.append(
                (module_name, ii, shard, max(1, total // shards), seed_value, time_cap, shrink_cap)
            )

    n_workers = min(len(tasks), int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    if n_workers > 1:
        # fork: the modules are already imported
        context = multiprocessing.get_context("fork")
        with context.Pool(n_workers, maxtasksperchild=None) as pool:
            results = pool.map(_run_shard, tasks, chunksize=1)
    else:
        results = [_run_shard(task) for task in tasks]

    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    per_sub = {}
    labels = {}
    keys = set()
    samples = []
    evaluations = 0
    for res in results:
        evaluations += res["evaluations"]
        stat = per_sub.setdefault(
            res["sub"], {"evaluations": 0, "discarded": 0, "nontrivial": 0, "truncated": False}
        )
        stat["evaluations"] += res["evaluations"]
        stat["discarded"] += res["discarded"]
        stat["truncated"] |= res["truncated"]
        new = {res["sub"] + key for key in res["keys"]}
        stat["nontrivial"] += len(new - keys)
        keys |= new
        for label, num in res["labels"].items():
            labels.setdefault(res["sub"], {}).setdefault(label, 0)
            labels[res["sub"]][label] += num
        if len([s for s in samples if s["sub"] == res["sub"]]) < 2:
            samples += res["samples"][:2]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed_value,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": module.RULE,
            "samples": samples,
            "per_sub": per_sub,
            "labels": labels,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []) + [
            "numpy/scipy/scikit-learn/networkx/shapely behave as documented",
        ],
        "violations": len(failures),
        "wall_s": round(time.monotonic() - start, 2),
    }
    out = VERIF / "evidence"
    out.mkdir(exist_ok=True)
    (out / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    for name, stat in per_sub.items():
        print(f"  {name}: {stat}")
    code = 0
    if failures:
        replays = VERIF / "replays"
        replays.mkdir(exist_ok=True)
        seen = set()
        for res in sorted(failures, key=lambda r: r["failure"]["size"]):
            if res["sub"] in seen:
                continue
            seen.add(res["sub"])
            failure = res["failure"]
            path = replays / f"{prop}-{res['sub']}-{case_key(failure['case'])}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": prop,
                        "sub": res["sub"],
                        "case": failure["case"],
                        "message": failure["message"],
                        "run": f"bash run.sh {prop} --replay {path}",
                    },
                    indent=1,
                )
                + "\n"
            )
            print(f"  {res['sub']}: {failure['message']}")
            print(f"VIOLATION property={prop} replay={path}")
        code = 1
    if errors:
        for res in errors:
            print(f"HARNESS-ERROR in {res['sub']}:\n{res['error']}", file=sys.stderr)
        if not code:
            code = 2
    print(
        f"{prop} [{tier}] seed={seed_value}: {evaluations} cases, {len(keys)} distinct "
        f"non-trivial, {len(failures)} failing shards, {evidence['wall_s']} s"
    )
    return code


def replay(module_name, path):
    import importlib

    setup_runtime()
    module = importlib.import_module(module_name)
    data = json.loads(Path(path).read_text())
    subs = list(module.SUBS) + list(getattr(module, "FINDINGS", []))
    sub = next(s for s in subs if s.name == data["sub"])
    status, detail = execute(sub, data["case"])
    print(f"{data['property']} {data['sub']}: {status} {detail}")
    if status in ("violation", "endless"):
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    return 0
