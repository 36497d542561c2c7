"""Runs the cases of a check in parallel, aggregates what was observed and gives the verdict."""
import collections
import glob
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import build
from .common import VERIF, Inconclusive, Scratch, digest, dump_json, remove_tree, scratch_root

KNOWN = os.path.join(VERIF, "known_findings.json")


class Outcome:
    """What one case observed."""

    def __init__(self, index):
        self.index = index
        self.evaluations = 0
        self.counters = collections.Counter()
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.error = None

    def ran(self, signature=None, **counts):
        """One evaluation; with a signature if it is non-trivial, which makes it distinct."""
        self.evaluations += 1
        if signature is not None:
            self.signatures.add(digest(signature))
        self.counters.update(counts)

    def count(self, **counts):
        self.counters.update(counts)

    def violation(self, signature, message, **data):
        """The signature identifies the kind of failure for the known-findings file."""
        self.violations.append({"signature": signature, "message": message, "case": self.index, "data": data})

    def sample(self, **data):
        if len(self.samples) < 2:
            self.samples.append(data)


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.qlc = None
        self.pid = os.getpid()
        self.shared = {}
        self._node = None

    def scratch(self):
        return Scratch(f"qv-{self.prop}-{self.pid}-")

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def node(self):
        if self._node is None:
            from .tsnode import TsNode
            self._node = TsNode()
        return self._node


_ctx = None
_module = None


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_case(index):
    out = Outcome(index)
    rng = random.Random(f"{_ctx.seed}/{_ctx.prop}/{index}")
    try:
        if isinstance(index, str):
            getattr(_module, "probe_" + index)(_ctx, out)
        else:
            _module.case(_ctx, rng, index, out)
    except Inconclusive as e:
        out.inconclusive.append(f"case {index}: {e}")
    except Exception:
        out.error = f"case {index}:\n{traceback.format_exc()}"
    return out


def _known_findings(prop):
    with open(KNOWN) as f:
        entries = json.load(f)
    return {e["signature"]: e for e in entries if e["property"] == prop and e["status"] == "known"}


def _write_replay(prop, tier, seed, violation):
    directory = os.path.join(VERIF, "replay")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{prop}-{digest(seed, violation['case'], violation['signature'])}.json")
    with open(path, "w") as f:
        f.write(dump_json({"property": prop, "tier": tier, "seed": seed, **violation,
                           "how": f"VERIF_SEED={seed} VERIF_TIER={tier} ./check {prop} --replay {os.path.relpath(path, VERIF)}"}))
    return os.path.relpath(path, VERIF)


def main(argv):
    global _ctx, _module
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    args = argv[1:]
    while args:
        flag = args.pop(0)
        if flag == "--replay":
            with open(args.pop(0)) as f:
                replay = json.load(f)
            seed, tier, only = replay["seed"], replay["tier"], [replay["case"]]
        elif flag == "--case":
            only = [int(args.pop(0))]
        elif flag == "--seed":
            seed = int(args.pop(0))
        elif flag == "--tier":
            tier = args.pop(0)
    started = time.time()
    _module = importlib.import_module(f"qv.checks.{prop.lower()}")
    _ctx = Context(prop, tier, seed)
    try:
        if getattr(_module, "NEEDS_QLC", True):
            _ctx.qlc = build.qlc()
        if hasattr(_module, "setup"):
            _module.setup(_ctx)
    except build.BuildError as e:
        print(f"error: could not build {e}")
        return 2
    setup_s = time.time() - started

    max_cases, max_seconds = _module.BUDGET[tier]
    probes = [name[len("probe_"):] for name in dir(_module) if name.startswith("probe_")]
    indexes = only if only is not None else probes + list(range(max_cases))
    workers = min(getattr(_module, "WORKERS", 8), max(1, len(indexes)))
    total = Outcome(None)
    errors = []
    cases = 0
    deadline = started + setup_s + max_seconds
    if workers == 1 or only is not None:
        results = map(_run_case, indexes)
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(workers, _worker_init)
        results = pool.imap_unordered(_run_case, indexes, chunksize=getattr(_module, "CHUNK", 4))
    capped = False
    try:
        grace = None
        for out in results:
            cases += 1
            total.evaluations += out.evaluations
            total.counters.update(out.counters)
            total.signatures |= out.signatures
            total.violations += out.violations
            total.inconclusive += out.inconclusive
            if len(total.samples) < 6:
                total.samples += out.samples[:1]
            if out.error:
                errors.append(out.error)
            now = time.time()
            if (out.violations or out.error) and grace is None:
                grace = now + 5
            if now > deadline or (grace is not None and now > grace and len(total.violations) + len(errors) > 0
                                  and not set(v["signature"] for v in total.violations) <= set(_known_findings(prop))):
                capped = cases < len(indexes)
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
            for left in glob.glob(os.path.join(scratch_root(), f"qv-{prop}-{_ctx.pid}-*")):
                remove_tree(left)
    if hasattr(_module, "finish"):
        _module.finish(_ctx, total)

    known = _known_findings(prop)
    fresh, seen_known = {}, {}
    for v in total.violations:
        if v["signature"] in known:
            seen_known.setdefault(v["signature"], v)
        else:
            fresh.setdefault(v["signature"], v)

    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": len(total.signatures),
        "rule": _module.RULE,
        "samples": total.samples[:6] or ["none"],
        "cases": cases,
        "stopped_by_time": capped,
        "observed": dict(sorted(total.counters.items())),
        "inconclusive": len(total.inconclusive),
        "setup_s": round(setup_s, 1),
        "hooks": "do not build" if build.hooks_lost else "in",
    }
    coverage.update(_ctx.shared.get("coverage", {}))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": _module.LEVEL, "coverage": coverage,
        "assumptions": getattr(_module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - started, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            f.write(dump_json(evidence) + "\n")

    for signature, v in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {known[signature]['what']}")
    print(f"{prop} {tier} seed={seed}: {cases} cases, {total.evaluations} evaluations, "
          f"{len(total.signatures)} distinct, {len(total.inconclusive)} inconclusive, {evidence['wall_s']}s")
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(total.counters.items())))
    for line in total.inconclusive[:3]:
        print("  inconclusive: " + line)
    if fresh:
        for v in list(fresh.values())[:4]:
            path = _write_replay(prop, tier, seed, v)
            print(f"  {v['signature']}: {v['message'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("error: the check itself failed")
        for e in errors[:3]:
            print(e)
        return 2
    if only is None:
        if total.evaluations == 0 or not total.signatures:
            print("error: nothing was observed")
            return 2
        if len(total.inconclusive) > max(3, 0.2 * cases):
            print("error: too many inconclusive cases")
            return 2
        from_hooks = getattr(_module, "FROM_HOOKS", []) if build.hooks_lost else []
        missing = [k for k in getattr(_module, "MUST_OBSERVE", []) if not total.counters.get(k) and k not in from_hooks]
        if missing:
            print(f"error: the workload never produced {missing}")
            return 2
    return 0
