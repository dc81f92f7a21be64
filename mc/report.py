"""Check runner: tiers, sharding over processes, violations, known findings, evidence."""
from __future__ import annotations

import argparse
import contextlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import env

EVID = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.json")
MAX_VIOL = 25


class Hang(BaseException):
    """The code under test did not return within its wall-clock allowance."""


@contextlib.contextmanager
def deadline(seconds: float, what: str = ""):
    def _h(sig, frm):
        raise Hang(f"no return within {seconds}s {what}")

    old = signal.signal(signal.SIGALRM, _h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(x) for x in (sorted(o, key=repr) if isinstance(o, (set, frozenset)) else o)]
    if isinstance(o, (bytes, bytearray)):
        return "hex:" + bytes(o).hex()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Tally:
    """Mergeable counters and violations from one shard."""

    def __init__(self):
        self.n: dict[str, int] = {}
        self.distinct: set = set()
        self.samples: list = []
        self.viol: list[tuple[str, dict]] = []
        self.viol_total = 0
        self.info: dict = {}

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def outcome(self, key):
        self.distinct.add(key)

    def sample(self, x, cap=3):
        if len(self.samples) < cap:
            self.samples.append(jsonable(x))

    def violation(self, key: str, **detail):
        self.viol_total += 1
        if len(self.viol) < MAX_VIOL or all(k != key for k, _ in self.viol):
            self.viol.append((key, jsonable(detail)))

    @property
    def full(self):
        return self.viol_total >= 400

    def merge(self, o: "Tally"):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        self.distinct |= o.distinct
        self.samples.extend(o.samples)
        self.viol.extend(o.viol)
        self.viol_total += o.viol_total
        self.info.update(o.info)


def _shard_entry(args):
    fn, shard, kw = args
    t = Tally()
    try:
        fn(t, shard, **kw)
    except Hang as e:
        t.violation("hang", where=str(e), shard=repr(shard)[:300], trace=traceback.format_exc()[-3000:])
    except Exception as e:  # the code under test raised where the property leaves no room for it
        t.violation("exception:" + type(e).__name__, error=repr(e)[:500], shard=repr(shard)[:300],
                    trace=traceback.format_exc()[-3000:])
    return t


class Check:
    def __init__(self, pid: str, level: str):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--replay")
        ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4))
        a = ap.parse_args()
        self.pid, self.level = pid, level
        self.tier = a.tier
        self.quick = a.tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.jobs = a.jobs
        self.t0 = time.monotonic()
        self.total = Tally()
        self.assumptions: list[str] = []
        self.exhaustive = True

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def run(self, fn, shards, timeout: float = 840.0, **kw):
        """Run fn(tally, shard, **kw) for every shard over a process pool."""
        shards = list(shards)
        left = max(10.0, timeout - (time.monotonic() - self.t0))
        ctx = mp.get_context("fork")
        sys.stdout.flush()
        if self.jobs == 1 or len(shards) == 1:
            for s in shards:
                self.total.merge(_shard_entry((fn, s, kw)))
            return
        with ctx.Pool(min(self.jobs, len(shards))) as pool:
            it = pool.imap_unordered(_shard_entry, [(fn, s, kw) for s in shards])
            done = 0
            end = time.monotonic() + left
            while done < len(shards):
                try:
                    self.total.merge(it.next(timeout=max(1.0, end - time.monotonic())))
                except mp.TimeoutError:
                    self.total.violation("hang", where="shards did not finish", remaining=len(shards) - done)
                    pool.terminate()
                    return
                done += 1

    def finish(self, coverage: dict):
        wall = time.monotonic() - self.t0
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [k for k in json.load(f)["findings"] if k["property"] == self.pid and k.get("status") != "fixed"]
        new, seen_known = [], {}
        for key, d in self.total.viol:
            k = next((k for k in known if k["key"] == key), None)
            if k:
                seen_known[key] = k
            else:
                new.append((key, d))
        for k in known:
            if k["key"] in seen_known:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = dict(coverage)
        cov.setdefault("samples", self.total.samples[:5] or ["(no sample recorded)"])
        cov.setdefault("distinct_outcomes", len(self.total.distinct))
        cov.setdefault("counters", self.total.n)
        if self.total.info:
            cov.setdefault("info", jsonable(self.total.info))
        cov["exhaustive"] = bool(self.exhaustive)
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} [{self.tier}] {wall:.1f}s " + json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))}))
        if new:
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump([{"key": k, **d} for k, d in new[:MAX_VIOL]], f, indent=1)
            for k, d in new[:5]:
                print(f"  {k}: {json.dumps(d)[:700]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)


def split(items, n):
    items = list(items)
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]
