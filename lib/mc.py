"""Bounded exhaustive exploration of the real implementation.

A check module defines main(r) and module level functions fn(item, ctx). r.map
runs fn on *every* item of an enumerated space (in forked workers, results are
merged in input order, so a run is deterministic); r.bfs explores a transition
system whose transitions call the real code and whose states are canonical
forms of the real objects.
"""
import base64
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import logging
import math
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)


class StopRun(Exception):
    pass


class Hang(Exception):
    pass


def digest(obj) -> str:
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Ctx:
    def __init__(self):
        self.viol = []
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.outcomes = set()
        self.out = None

    def state(self, obj):
        self.states.add(digest(obj))

    def outcome(self, *obj):
        self.outcomes.add(digest(obj))

    def step(self, n=1):
        self.steps += n

    def fail(self, key, msg=""):
        if len(self.viol) < 40:
            self.viol.append((str(key).replace(" ", ""), str(msg)[:2000]))

    def check(self, cond, key, msg=""):
        self.steps += 1
        if not cond:
            self.fail(key, msg)
        return bool(cond)

    def eq(self, got, want, key, msg=""):
        self.steps += 1
        if not (got == want):
            self.fail(key, f"{msg} got={got!r} want={want!r}")
            return False
        return True

    def close(self, got, want, key, msg="", tol=1e-6):
        self.steps += 1
        ok = close(got, want, tol)
        if not ok:
            self.fail(key, f"{msg} got={got!r} want={want!r}")
        return ok

    def raises(self, f, exc, key, msg=""):
        """f() must raise exc; anything else is a violation."""
        self.steps += 1
        try:
            v = f()
        except exc:
            return True
        except Exception as e:
            self.fail(key, f"{msg} raised {type(e).__name__}: {e} instead of {exc}")
            return False
        self.fail(key, f"{msg} did not raise (returned {v!r})")
        return False


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def _alarm(signum, frame):
    raise Hang("time limit for one case")


def where(e) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "terragraph_planner" in fr.filename:
            return f"{os.path.basename(fr.filename)}:{fr.name}"
    return tb[-1].name if tb else "?"


# for trying many changes of the code: stop at the first violation
FAST = bool(os.environ.get("VERIF_FAST"))


def run_one(modname, fn, item, limit=120) -> Ctx:
    if FAST:
        limit = min(limit, 30)
    mod = importlib.import_module(modname)
    ctx = Ctx()
    ctx.traces = 1
    if threading_main():
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
    try:
        getattr(mod, fn)(item, ctx)
    except Hang:
        ctx.fail("hang", f"case did not end within {limit} s")
    except Exception as e:
        ctx.fail(
            f"exception:{type(e).__name__}:{where(e)}", traceback.format_exc()[-1500:]
        )
    finally:
        if threading_main():
            signal.alarm(0)
    return ctx


def threading_main():
    import threading

    return threading.current_thread() is threading.main_thread()


def _chunk(args):
    modname, fn, items, limit = args
    agg = Ctx()
    viols, outs = [], []
    for idx, it in items:
        c = run_one(modname, fn, it, limit)
        agg.states |= c.states
        agg.steps += c.steps
        agg.traces += c.traces
        agg.outcomes |= c.outcomes
        outs.append(c.out)
        for k, m in c.viol:
            viols.append((idx, k, m))
        if len(viols) > (0 if FAST else 200):
            break
    return agg.states, agg.steps, agg.traces, agg.outcomes, outs, viols


class Runner:
    def __init__(self, prop, tier, seed, workers):
        self.prop, self.tier, self.seed, self.workers = prop, tier, seed, workers
        self.modname = prop.lower()
        self.quick = tier == "quick"
        self.violations = []  # (fn, item, key, msg)
        self.spaces = []
        self.states, self.steps, self.traces = set(), 0, 0
        self.outcomes = set()
        self.samples = []
        self.assumptions = []
        self.exhaustive = True
        self.extra = {}
        self.module = None

    # ---- exploration -------------------------------------------------
    def map(self, fn, items, name=None, limit=120, chunk=None, samples=2):
        """Run module function fn on every item."""
        name = name or fn.__name__
        items = list(items)
        n = len(items)
        t0 = time.time()
        s0, st0, o0 = len(self.states), self.steps, len(self.outcomes)
        idx = list(enumerate(items))
        if chunk is None:
            chunk = max(1, min(200, n // (self.workers * 8) or 1))
        chunks = [idx[i : i + chunk] for i in range(0, n, chunk)]
        jobs = [(self.modname, fn.__name__, c, limit) for c in chunks]
        outs = []
        local_states = set()
        local_out = set()
        if self.workers <= 1 or n <= 2:
            results = map(_chunk, jobs)
        else:
            results = self._pool(jobs)
        for states, steps, traces, outcomes, o, viols in results:
            local_states |= states
            local_out |= outcomes
            self.steps += steps
            self.traces += traces
            outs.extend(o)
            for i, k, m in viols:
                self.add_violation(fn.__name__, items[i], k, m)
        # the input states of this space plus the object states seen on the way
        self.states |= {name + digest(it) for it in items}
        self.states |= {name + h for h in local_states}
        self.outcomes |= {name + h for h in local_out}
        for i in range(min(samples, n)):
            j = i * max(1, n // max(1, samples))
            self.samples.append({"space": name, "case": repr(items[min(j, n - 1)])[:400]})
        self.spaces.append(
            dict(
                space=name,
                cases=n,
                comparisons=self.steps - st0,
                distinct_states=len(local_states),
                distinct_outcomes=len(local_out),
                wall_s=round(time.time() - t0, 2),
            )
        )
        return outs

    def _pool(self, jobs):
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(self.workers, mp_context=ctx) as ex:
            futs = [ex.submit(_chunk, j) for j in jobs]
            for f, j in zip(futs, jobs):
                try:
                    yield f.result()
                except cf.process.BrokenProcessPool:
                    self.add_violation(j[1], j[2][0][1], "worker-died", "a worker process died")
                    raise StopRun()

    def bfs(self, fn, root_events, depth, name=None, max_states=None, limit=120):
        """Level-synchronous breadth first search.

        fn(history, ctx) rebuilds a fresh real object by replaying history,
        checks every invariant / model agreement, and sets
        ctx.out = (canonical_state, [enabled events]).
        """
        name = name or fn.__name__
        seen = set()
        frontier = [tuple(e) for e in root_events]
        levels = []
        capped = False
        for d in range(depth + 1):
            if not frontier:
                break
            outs = self.map(fn, frontier, name=f"{name}@{d}", limit=limit, samples=1 if d else 0)
            nxt = []
            new = 0
            for h, o in zip(frontier, outs):
                if o is None:
                    continue
                k, events = o
                kd = digest(k)
                if kd in seen:
                    continue
                seen.add(kd)
                new += 1
                if d < depth:
                    nxt.extend(h + (e,) for e in events)
            levels.append((d, len(frontier), new))
            frontier = nxt
            if max_states and len(seen) > max_states:
                capped = True
                break
        if capped:
            self.exhaustive = False
        self.states |= {name + s for s in seen}
        self.extra.setdefault("bfs", []).append(
            dict(
                space=name,
                depth=depth,
                states=len(seen),
                transitions=sum(l[1] for l in levels),
                levels=[dict(depth=a, transitions=b, new_states=c) for a, b, c in levels],
                capped=capped,
            )
        )
        return seen

    # ---- verdict -----------------------------------------------------
    def add_violation(self, fn, item, key, msg):
        self.violations.append((fn, item, str(key), str(msg)))
        if FAST and (self.prop, str(key)) not in load_known():
            print(f"VIOLATION property={self.prop} key={key} {str(msg)[-600:]}", flush=True)
            for p in mp.active_children():
                p.kill()
            os._exit(1)

    def finish(self, wall, show=5) -> int:
        known = load_known()
        unlisted, listed = [], collections.OrderedDict()
        for v in self.violations:
            kk = (self.prop, v[2])
            if kk in known:
                listed[kk] = known[kk]
            else:
                unlisted.append(v)
        for (p, k), what in listed.items():
            print(f"KNOWN-FINDING: property={p} {what}")
        seen_keys = collections.OrderedDict()
        for fn, item, key, msg in unlisted:
            seen_keys.setdefault(key, []).append((fn, item, msg))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for n, (key, lst) in enumerate(seen_keys.items()):
            if n >= show:
                print(f"... {len(seen_keys) - show} more distinct violations")
                break
            fn, item, msg = lst[0]
            path = os.path.join(HERE, "replays", f"{self.prop}-{digest((key,))}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=self.prop,
                        fn=fn,
                        key=key,
                        msg=msg,
                        case=repr(item)[:4000],
                        item=base64.b64encode(pickle.dumps(item)).decode(),
                        how=f"./check {self.prop} quick --replay {path}",
                        cases_failing=len(lst),
                    ),
                    f,
                    indent=1,
                )
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  key={key} cases={len(lst)}")
            print("  case=" + repr(item)[:600])
            print("  " + msg[:1500].replace("\n", "\n  "))
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="model_checking",
            coverage=dict(
                states=len(self.states),
                transitions=self.steps,
                traces_validated_against_impl=self.traces,
                distinct_outcomes=len(self.outcomes),
                exhaustive=self.exhaustive,
                spaces=self.spaces,
                samples=self.samples[:12],
                known_findings_observed=[w for w in listed.values()],
                **self.extra,
            ),
            assumptions=self.assumptions,
            wall_s=round(wall, 2),
            violations=len(seen_keys),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{self.prop} {self.tier}: cases={self.traces} comparisons={self.steps} "
            f"states={len(self.states)} outcomes={len(self.outcomes)} "
            f"violations={len(seen_keys)} known={len(listed)} wall={wall:.1f}s"
        )
        return 1 if seen_keys else 0


def load_known():
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property="):
                rest = line[len("open: property=") :]
                prop, keypart, what = rest.split(" ", 2)
                assert keypart.startswith("key=")
                out[(prop, keypart[4:])] = what
    return out
