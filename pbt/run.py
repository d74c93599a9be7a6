"""Run the campaigns of one property: generate, judge, shrink, report."""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

from pbt import bootstrap

bootstrap.setup()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402

from pbt.core import Ambiguous, Ctx, Hang, StopRun, Violation  # noqa: E402

ROOT = Path(__file__).resolve().parent.parent
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
GUARD = {"quick": 420.0, "thorough": 840.0}  # stop *generating* after this; never a verdict
SHRINK_WALL = 40.0

MODULE = None
START = time.time()
TIER = "quick"
SEED = 1
KNOWN: set[str] = set()


def _canon(obj) -> str:
    return json.dumps(obj, sort_keys=True)


def load_known(prop: str) -> list[dict]:
    data = json.loads((ROOT / "known_findings.json").read_text())
    return [e for e in data["findings"] if e["property"] == prop]


def _alarm(signum, frame):
    raise Hang("no result within the CPU budget of one case")


MALFORMED = (
    LookupError,
    ValueError,
    TypeError,
    AttributeError,
    ArithmeticError,
    StopIteration,
    AssertionError,
)


def judge(camp, case: dict) -> Ctx:
    """Run one case under the CPU watchdog; raises Violation unless it is a recorded finding."""
    ctx = Ctx()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, camp.cpu_limit)
    try:
        camp.run(case, ctx)
    except Ambiguous:
        ctx.trivial = True
        ctx.label("on a tolerance, no verdict")
    except Violation as v:
        if v.finding is not None and v.finding in KNOWN:
            ctx.known.append(v.finding)
        else:
            raise
    except MALFORMED as e:
        # the oracles accept anything of the documented shape: this result is not
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"the result cannot be judged: {type(e).__name__}: {e} ({Path(where.filename).name}:{where.lineno})") from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    for f in ctx.known:
        if f not in KNOWN:
            raise Violation(f"unlisted finding {f}")
    return ctx


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.violation = None
        self.error = None
        self.partial = False


def run_task(task):
    """One task = (campaign index, strata).  Returns Stats; stops at the first violation."""
    ci, strata = task
    camp = MODULE.CAMPAIGNS[ci]
    out = Stats()
    n = camp.quick if TIER == "quick" else camp.thorough
    limit = START + GUARD[TIER]
    for stratum in strata:
        if time.time() > limit:
            out.partial = True
            break
        state = {"fail": None, "t": None}

        def body(case):
            now = time.time()
            if state["fail"] is not None and now > state["t"] + SHRINK_WALL:
                raise StopRun
            if state["fail"] is None and now > limit:
                raise StopRun
            try:
                ctx = judge(camp, case)
            except Violation as v:
                if state["t"] is None:
                    state["t"] = now
                state["fail"] = (case, str(v), type(v).__name__)
                if isinstance(v, Hang):
                    raise StopRun from v
                raise
            if state["fail"] is not None:
                return
            out.evaluations += 1
            for lb in ctx.labels:
                key = f"{camp.name}:{lb}"
                out.labels[key] = out.labels.get(key, 0) + 1
            for k in ctx.known:
                out.known[k] = out.known.get(k, 0) + 1
            if not ctx.trivial:
                out.distinct.add(int.from_bytes(hashlib.blake2b(_canon([camp.name, case]).encode(), digest_size=8).digest(), "big"))
                if len(out.samples) < 2:
                    out.samples.append({"campaign": camp.name, "case": case, "labels": ctx.labels})

        test = given(camp.strategy(stratum))(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(zlib.crc32(_canon([MODULE.PROPERTY, camp.name, stratum, SEED]).encode()))(test)
        try:
            test()
        except StopRun:
            if state["fail"] is None:
                out.partial = True
        except Violation:
            pass
        except hypothesis.errors.HypothesisException as e:
            if state["fail"] is None:
                out.error = f"stratum {stratum!r}: {type(e).__name__}: {e}"
        except Exception as e:  # noqa: BLE001
            if state["fail"] is None:
                out.error = f"stratum {stratum!r}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
        if state["fail"] is not None:
            case, msg, kind = state["fail"]
            out.violation = {"campaign": camp.name, "case": case, "message": msg, "kind": kind}
            break
        if out.error:
            break
    return out


def run_regression(idx):
    camp_name, case = MODULE.REGRESSIONS[idx]
    camp = next(c for c in MODULE.CAMPAIGNS if c.name == camp_name)
    out = Stats()
    try:
        ctx = judge(camp, case)
        out.evaluations += 1
        out.labels[f"{camp_name}:saved case"] = 1
        for lb in ctx.labels:
            key = f"{camp_name}:{lb}"
            out.labels[key] = out.labels.get(key, 0) + 1
        for k in ctx.known:
            out.known[k] = out.known.get(k, 0) + 1
        if not ctx.trivial:
            out.distinct.add(int.from_bytes(hashlib.blake2b(_canon([camp_name, case]).encode(), digest_size=8).digest(), "big"))
    except Violation as v:
        out.violation = {"campaign": camp_name, "case": case, "message": str(v), "kind": type(v).__name__}
    except Exception as e:  # noqa: BLE001
        out.error = f"saved case {idx}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
    return out


def _dispatch(job):
    kind, arg = job
    try:
        return run_regression(arg) if kind == "reg" else run_task(arg)
    except Exception as e:  # noqa: BLE001
        out = Stats()
        out.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
        return out


def make_jobs():
    jobs = [("reg", i) for i in range(len(getattr(MODULE, "REGRESSIONS", [])))]
    per_campaign = []
    for ci, camp in enumerate(MODULE.CAMPAIGNS):
        strata = camp.strata(TIER)
        ntask = min(len(strata), 48)
        # interleave so that every task sees a spread of strata
        per_campaign.append([("task", (ci, strata[i::ntask])) for i in range(ntask)])
    # interleave campaigns: a time guard, if ever hit, then truncates all of them alike
    longest = max(len(p) for p in per_campaign)
    for i in range(longest):
        for p in per_campaign:
            lo, hi = i * len(p) // longest, (i + 1) * len(p) // longest
            jobs.extend(p[lo:hi])
    return jobs


def write_replay(prop, violation):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    h = hashlib.blake2b(_canon(violation).encode(), digest_size=5).hexdigest()
    path = d / f"{prop}-{h}.json"
    path.write_text(json.dumps({"property": prop, **violation}, indent=1, sort_keys=True) + "\n")
    return path


def self_test():
    """Load everything a check needs."""
    names = sorted(p.stem for p in (ROOT / "pbt" / "props").glob("p[0-9]*.py"))
    for name in names:
        m = importlib.import_module(f"pbt.props.{name}")
        assert m.PROPERTY == name.upper() and m.CAMPAIGNS and m.RULE
        load_known(m.PROPERTY)
    print(f"{len(names)} property modules loaded; hypothesis {hypothesis.__version__}")
    return 0


def main():
    global MODULE, TIER, SEED, KNOWN
    if sys.argv[1:] == ["--self-test"]:
        return self_test()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    TIER, SEED = args.tier, args.seed
    try:
        MODULE = importlib.import_module(f"pbt.props.{args.prop.lower()}")
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={args.prop}: the check cannot be loaded", file=sys.stderr)
        return 2
    prop = MODULE.PROPERTY
    known = load_known(prop)
    KNOWN = {e["id"] for e in known if e["status"] == "open"}

    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        camp = next(c for c in MODULE.CAMPAIGNS if c.name == data["campaign"])
        try:
            ctx = judge(camp, data["case"])
        except Violation as v:
            print(f"replayed: {v}")
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("replayed: property held; labels", ctx.labels)
        return 0

    jobs = make_jobs()
    total = Stats()
    ctxmp = multiprocessing.get_context("fork")
    sys.stdout.flush()
    ex = ProcessPoolExecutor(max_workers=NPROC, mp_context=ctxmp)
    try:
        futures = [ex.submit(_dispatch, j) for j in jobs]
        for fut in futures:
            r = fut.result()
            total.evaluations += r.evaluations
            total.distinct |= r.distinct
            for k, v in r.labels.items():
                total.labels[k] = total.labels.get(k, 0) + v
            for k, v in r.known.items():
                total.known[k] = total.known.get(k, 0) + v
            total.samples.extend(r.samples)
            total.partial |= r.partial
            if r.error:
                total.error = r.error
                break
            if r.violation:
                total.violation = r.violation
                break
    except BrokenProcessPool as e:
        total.error = f"a worker process died: {e}"
    finally:
        procs = list((ex._processes or {}).values())
        if not (total.error or total.violation):
            ex.shutdown(wait=True, cancel_futures=True)
        # no worker may outlive the check: it would keep the caller's output pipe open
        for p in procs:
            p.kill()
        for p in procs:
            p.join(10)

    wall = time.time() - START
    if total.error and not total.violation:
        print(f"ERROR property={prop}: the check itself failed\n{total.error}", file=sys.stderr)
        return 2

    step = max(1, len(total.samples) // 8)
    evidence = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.distinct),
            "rule": MODULE.RULE,
            "samples": total.samples[::step][:8],
            "labels": dict(sorted(total.labels.items())),
            "stopped_by_time_guard": total.partial,
            "known_findings_seen": total.known,
            "cases_per_second": round(total.evaluations / max(wall, 1e-9), 1),
        },
        "assumptions": getattr(MODULE, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if total.violation else 0,
    }
    if not args.no_evidence:
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    print(f"{prop} {TIER} seed={SEED}: {total.evaluations} cases, {len(total.distinct)} distinct non-trivial, {wall:.1f} s"
          + (" (time guard reached)" if total.partial else ""))
    for e in known:
        if e["status"] == "open" and not total.violation:
            print(f"KNOWN-FINDING: property={prop} {e['what']} (seen in {total.known.get(e['id'], 0)} cases)")
    if total.violation:
        path = write_replay(prop, total.violation)
        print(f"campaign {total.violation['campaign']}: {total.violation['message']}")
        print(f"case {_canon(total.violation['case'])[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    # run as a module so that property modules and this one share the same globals
    sys.modules["pbt.run"] = sys.modules["__main__"]
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
