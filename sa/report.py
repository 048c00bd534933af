"""Running a check: collecting evidence, known findings, verdict."""
from __future__ import annotations

import hashlib
import json
import os
import signal
import sys
import time
import traceback

from . import lib
from .explore import Explorer
from .interp import Unmodelled

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ELL_REPO", "/repo")
EV = os.environ.get("ELL_EVIDENCE", os.path.join(ROOT, "evidence"))

ASSUME = [
    "floats are treated as real numbers: rounding, overflow, NaN and signed zero are outside the abstraction",
    "equality of value numbers is identity testing at witness valuations with 80 digits (an algebraic difference "
    "that vanishes at every valuation tried would be missed; a reported difference is exact at its witness)",
    "an abstract branch for which neither the sign table nor the witness search yields a valuation is counted as "
    "unreachable (see branches_one_sided)",
    "numpy/math/copy semantics are those of the transfer functions in sa/npmodel.py",
]


def known(pid):
    out = []
    with open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                key, _, text = line[len("finding: property=%s " % pid):].partition(" ")
                assert key.startswith("key=")
                out.append((key[4:], text))
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.src = os.path.join(REPO, "src")
        self.t0 = time.time()
        self.findings = []
        self.tasks = []
        self.queue = []
        self.counts = {}
        self.sites = {}
        self.entered = set()
        self.syntax = []          # AST-level rule instances
        self.floors = []
        self.samples = []
        self.dead = set()
        self.notes = []

    def note(self, s):
        self.notes.append(s)

    def explore(self, name, scenario, sampler=None, mods=(), **kw):
        """queue an exploration task; `fallback` is a list of (name, scenario)
        analysed instead when the task meets a construct it cannot abstract"""
        self.queue.append((name, scenario, sampler, mods, kw))

    def explore_now(self, name, scenario, sampler, mods, kw):
        kw = dict(kw)
        ints = kw.pop("ints", ())
        fallback = kw.pop("fallback", ())
        optional = kw.pop("optional", False)  # widened histories: no verdict is not a broken analysis
        kw.setdefault("constants", lib.constants(self.src, mods))
        t = time.time()
        e = Explorer(self.src, "%s/%s" % (self.pid, name), scenario, sampler, seed=self.seed, **kw)
        e.int_atoms = set(ints)
        if sampler is not None and not e.pool:
            raise Unmodelled("no witness valuation for task %s" % name)
        try:
            e.explore()
            if e.truncated:
                raise Unmodelled("task %s: more than %d partitions" % (name, e.max_partitions))
        except Unmodelled as ex:
            if optional and not e.findings:
                r = self.summary(e, name, time.time() - t)
                r["notes"].append("%s not decided: %s" % (name, ex))
                return [r]
            if not fallback or e.findings:
                if e.findings:
                    return [self.summary(e, name, time.time() - t)]
                raise
            out = []
            for nm, sc in fallback:
                out += self.explore_now(nm, sc, sampler, mods, dict(kw, ints=ints))
            out[0]["notes"].append("%s analysed per instance: %s" % (name, ex))
            return out
        return [self.summary(e, name, time.time() - t)]

    def summary(self, e, name, dt):
        return {
            "findings": e.findings, "sites": e.sites, "entered": e.entered, "notes": [],
            "path": getattr(e, "last_path", None),
            "task": {
                "task": name, "partitions": e.partitions, "bounded": e.stopped, "obligations": e.obligations,
                "valuations": len(e.pool), "witness_searches": e.hunts, "cells_without_valuation": e.empty,
                "calls_interpreted": e.calls, "wall_s": round(dt, 2),
            },
        }

    def flush(self):
        """run the queued tasks on all cores (forked workers) and merge"""
        q, self.queue = self.queue, []
        if not q:
            return
        kn = {k for k, _ in known(self.pid)}
        decisive = lambda out: out[0] == "ok" and any(f.key not in kn for r in out[1] for f in r["findings"])
        left = (LIMIT[self.tier] - (time.time() - self.t0)) if self.tier in LIMIT else None
        results = run_forked(len(q), lambda i: self.explore_now(*q[i]), decisive=decisive, left=left)
        broken = None
        for i in range(len(q)):
            kind, val = results[i]
            if kind != "ok":
                broken = broken or (kind, val)
                continue
            for r in val:
                self.absorb(r)
        if broken:
            if broken[0] == "unmodelled":
                raise Unmodelled(broken[1])
            raise RuntimeError(broken[1])

    def absorb(self, r):
        self.findings += r["findings"]
        for s, o in r["sites"].items():
            self.sites.setdefault((s[0], s[1]), {}).setdefault(s[2], set()).update(o)
        self.entered |= r["entered"]
        self.notes += r["notes"]
        self.tasks.append(r["task"])
        if len(self.samples) < 6 and r["path"]:
            self.samples.append({"task": r["task"]["task"], "partition": r["path"][:14]})

    def partitions(self):
        return sum(t["partitions"] for t in self.tasks)

    def rule(self, rule, ok, site, detail, key=None):
        """one instance of a syntactic/structural rule"""
        from .explore import Finding

        self.syntax.append((rule, "%s:%s" % (site[0], site[1])))
        if not ok:
            self.findings.append(Finding(rule, site, detail, [], None, key))

    def floor(self, what, n, have):
        self.floors.append((what, n, have))
        if have < n:
            raise Unmodelled("only %d %s analysed, expected at least %d" % (have, what, n))

    # ---------------------------------------------------------------- verdict
    def finish(self):
        kn = known(self.pid)
        hit, new = {}, []
        for f in self.findings:
            for k, text in kn:
                if f.key == k:
                    hit[k] = text
                    break
            else:
                new.append(f)
        obligations = sum(t["obligations"] for t in self.tasks) + len(self.syntax)
        partitions = sum(t["partitions"] for t in self.tasks)
        both = sum(1 for d in self.sites.values() for o in d.values() if len(o) > 1)
        one = sorted("%s:%s %s" % (k[0], ln, k[1]) for k, d in self.sites.items() for ln, o in d.items() if len(o) == 1)
        if not new and not hit:
            self.floor("obligations", 1, obligations)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "static analysis of /repo/src: trace-partitioned abstract interpretation of the syntax "
                               "tree over algebraic value numbers (plus syntactic rules where listed); no repository "
                               "code is imported or executed and no solver is used",
                "functions_analysed": sorted("%s.%s" % (e[0], e[1]) for e in self.entered),
                "partitions": partitions, "obligations": obligations,
                "discharged": obligations - len(self.findings),
                "abstract_branches_both_sides": both,
                "branches_one_sided": one[:60],
                "tasks": self.tasks,
                "syntactic_rule_instances": len(self.syntax),
                "syntactic_rules": sorted({r for r, _ in self.syntax}),
                "samples": self.samples or [{"rule": r, "at": s} for r, s in self.syntax[:6]],
                "known_findings_seen": sorted(hit),
                "notes": self.notes,
            },
            "assumptions": ASSUME,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(EV, exist_ok=True)
        with open(os.path.join(EV, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[k]))
        if new:
            rp = os.path.join(EV, self.pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump([x.as_dict() for x in new], f, indent=1)
            for x in new[:4]:
                print("%s: rule '%s' broken at %s: %s" % (
                    self.pid, x.rule, "%s %s line %s" % tuple(x.site) if x.site else "?", x.detail))
                if x.path:
                    print("    path: " + " ; ".join(x.path[-8:]))
                if x.witness:
                    print("    witness: " + ", ".join("%s=%s" % kv for kv in list(x.witness.items())[:24]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s holds: %d partitions, %d obligations, %d functions, %.1fs" % (
            self.pid, partitions, obligations, len(self.entered), time.time() - self.t0))
        return 0


LIMIT = {"quick": 780}      # seconds until open tasks count as without verdict
GRACE = float(os.environ.get("ELL_GRACE", "45"))                  # seconds the other tasks get once a violation is established


def run_forked(n, fn, workers=None, decisive=lambda out: False, left=None):
    """fn(i) for i < n in forked children; results as ("ok", value) / (kind, message).
    Tasks still open after `left` seconds, or GRACE seconds after a decisive result,
    are stopped and have no verdict"""
    import multiprocessing as mpx
    import pickle

    workers = min(n, workers or int(os.environ.get("ELL_JOBS", "0")) or os.cpu_count() or 1)
    ctx = mpx.get_context("fork")
    nxt = ctx.Value("i", 0)
    res, pids = {}, []
    sys.stdout.flush()
    for _ in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    while True:
                        with nxt.get_lock():
                            i = nxt.value
                            nxt.value += 1
                        if i >= n:
                            break
                        try:
                            out = ("ok", fn(i))
                        except Unmodelled as e:
                            out = ("unmodelled", str(e))
                        except BaseException:
                            out = ("error", traceback.format_exc())
                        pickle.dump((i, out), f)
                        f.flush()
            finally:
                os._exit(0)
        os.close(w)
        pids.append((pid, r))
    import threading

    def drain(r):
        with os.fdopen(r, "rb") as f:
            while True:
                try:
                    i, out = pickle.load(f)
                except Exception:     # end of file, or a record cut short
                    break
                res[i] = out
                if decisive(out):
                    stop.append(time.time() + GRACE)

    stop = [time.time() + left] if left is not None else []
    ths = [threading.Thread(target=drain, args=(r,)) for _, r in pids]
    for t in ths:
        t.start()
    late = False
    while any(t.is_alive() for t in ths):
        for t in ths:
            t.join(0.2)
        if stop and time.time() > min(stop) and not late:
            late = True
            for pid, _ in pids:
                os.kill(pid, signal.SIGKILL)
    for pid, _ in pids:
        os.waitpid(pid, 0)
    for i in range(n):
        res.setdefault(i, ("unmodelled", "task %d has no verdict within the time limit" % i) if late else ("error", "worker for task %d died" % i))
    return res


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    for stale in (".json", ".violation.json"):
        p = os.path.join(EV, pid + stale)
        if os.path.exists(p):
            os.remove(p)
    ctx = Ctx(pid, tier, seed)
    try:
        mod = __import__("checks." + pid.lower(), fromlist=["run"])
        mod.run(ctx)
        ctx.flush()
        if hasattr(mod, "after"):
            mod.after(ctx)
        return ctx.finish()
    except Unmodelled as e:
        # a violation already established stands even if a later task has no verdict
        if any(f.key not in {k for k, _ in known(pid)} for f in ctx.findings):
            return ctx.finish()
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 2
    except RecursionError as e:
        print("ANALYSIS-BROKEN %s: recursion %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        if any(f.key not in {k for k, _ in known(pid)} for f in ctx.findings):
            return ctx.finish()
        print("ANALYSIS-BROKEN %s" % pid)
        return 2
