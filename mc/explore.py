"""Bounded exhaustive exploration of the real code.

Two engines share one vocabulary:

* ``DFS``: stateless search.  A scenario is a Python function of a ``Chooser``;
  every nondeterministic decision (input, operation, schedule, fault) is a
  ``choose``.  Each execution runs the real code to completion and is judged
  by an oracle.  All choice sequences whose *deviation cost* (number of
  non-default, non-free choices) is within the scenario's bound are executed,
  each exactly once.

* ``BFS``: explicit-state search over operation histories of the real code,
  merging histories that reach the same canonical model state.

Work is split over forked workers; every task runs in a fresh fork of the
pristine parent, so an execution can only be influenced by the executions of
its own task, which are replayable in order.
"""
import hashlib
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """The chosen combination is outside the stated domain."""


class Divergence(Exception):
    """A replayed prefix met a different choice point: harness error."""


class Hang(BaseException):
    pass


HANG_S = 60


def _h(key):
    return int.from_bytes(
        hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"
    )


def _name(v):
    if hasattr(v, "__name__"):
        return v.__name__
    s = repr(v).replace("\n", " ")
    return s if len(s) < 100 else s[:97] + "..."


class Chooser:
    """Resolves choices: replays ``prefix`` and then takes defaults."""

    def __init__(self, prefix=(), lenient=False, expect=None):
        self.prefix = list(prefix)
        self.expect = expect  # labels/arity recorded when prefix was made
        self.lenient = lenient
        self.points = []  # (label, n_options, index, free, name)
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.notes = []
        self.cleanups = []

    # -- nondeterminism ---------------------------------------------------
    def choose(self, label, options, free=False):
        if isinstance(options, dict):
            names = [str(k) for k in options]
            values = list(options.values())
        else:
            values = list(options)
            names = None
        n = len(values)
        if n == 0:
            raise Skip(f"no options for {label}")
        i = len(self.points)
        if i < len(self.prefix):
            idx = self.prefix[i]
            if idx >= n:
                if not self.lenient:
                    raise Divergence(
                        f"choice {i} ({label}): index {idx} of {n} options"
                    )
                idx = idx % n
            if self.expect is not None and i < len(self.expect):
                if self.expect[i] != (label, n):
                    raise Divergence(
                        f"choice {i}: expected {self.expect[i]}, "
                        f"got {(label, n)}"
                    )
        else:
            idx = 0
        name = names[idx] if names else _name(values[idx])
        self.points.append((label, n, idx, free, name))
        return values[idx]

    def flag(self, label, free=False):
        return self.choose(label, [False, True], free)

    def assume(self, cond):
        if not cond:
            raise Skip()

    # -- bookkeeping ------------------------------------------------------
    def step(self, n=1):
        """Count ``n`` transitions of the real code judged by the oracle."""
        self.steps += n

    def state(self, *key):
        self.states.add(_h(key))

    def outcome(self, *key):
        self.outcomes.add(_h(key))

    def note(self, text):
        self.notes.append(str(text))

    def defer(self, fn):
        self.cleanups.append(fn)

    # -- oracle -----------------------------------------------------------
    def check(self, cond, key, msg=""):
        if not cond:
            raise Violation(key, msg() if callable(msg) else str(msg))

    def fail(self, key, msg=""):
        raise Violation(key, str(msg))

    def raises(self, fn, key, exc=Exception):
        """``fn`` must raise; returns the exception."""
        self.step()
        try:
            res = fn()
        except exc as e:
            return e
        raise Violation(key, f"expected an error, got {_name(res)}")

    def choices(self):
        return [p[2] for p in self.points]

    def trace(self):
        return [f"{p[0]}={p[4]}" for p in self.points]


class Scenario:
    def __init__(self, name, fn, bound=None, horizon=None, note=""):
        self.name = name
        self.fn = fn
        self.bound = bound  # None: full product
        self.note = note


class BFSScenario:
    """``model()`` -> system with ``ops(state)``, run in forked workers.

    ``expand(history)`` is called in a worker.  It must rebuild the real
    system by replaying ``history``, and for each enabled operation return
    ``(op, canonical_key, violation_or_None, n_steps)``.
    """

    def __init__(self, name, expand, depth, note=""):
        self.name = name
        self.expand = expand
        self.depth = depth
        self.note = note


class Exec:
    __slots__ = ("points", "violation", "skipped", "steps", "states",
                 "outcomes", "notes")


def _on_alarm(signum, frame):
    raise Hang()


def run_once(scenario, prefix, lenient=False, expect=None):
    """One complete execution of the scenario on the real code."""
    ch = Chooser(prefix, lenient, expect)
    ex = Exec()
    ex.violation = None
    ex.skipped = False
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    try:
        scenario.fn(ch)
    except Skip:
        ex.skipped = True
    except Violation as v:
        ex.violation = (v.key, v.msg)
    except Divergence:
        raise
    except Hang:
        ex.violation = ("hang", f"execution did not finish in {HANG_S} s")
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-12)
        ex.violation = (f"exception:{type(e).__name__}", tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for fn in reversed(ch.cleanups):
            try:
                fn()
            except Exception:
                pass
    if not lenient and len(ch.points) < len(prefix):
        if ex.violation is None and not ex.skipped:
            raise Divergence("execution ended before its prefix")
    ex.points = ch.points
    ex.steps = ch.steps
    ex.states = ch.states
    ex.outcomes = ch.outcomes
    ex.notes = ch.notes
    return ex


def children(scenario, prefix, points):
    """Prefixes of the subtree below an executed prefix (each new leaf once)."""
    cost = 0
    out = []
    for i, (label, n, idx, free, _) in enumerate(points):
        if i >= len(prefix):
            c = cost + (0 if free else 1)
            if scenario.bound is None or c <= scenario.bound:
                base = [p[2] for p in points[:i]]
                exp = [(p[0], p[1]) for p in points[: i + 1]]
                for alt in range(1, n):
                    out.append((base + [alt], exp))
        if idx > 0 and not free:
            cost += 1
    return out


class Acc:
    def __init__(self):
        self.execs = 0
        self.skipped = 0
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.known = {}
        self.max_points = 0
        self.capped = False

    def add_exec(self, ex):
        if ex.skipped:
            self.skipped += 1
            return
        self.execs += 1
        self.steps += ex.steps
        self.states |= ex.states
        self.outcomes |= ex.outcomes
        self.max_points = max(self.max_points, len(ex.points))
        if (self.execs & (self.execs - 1)) == 0 and len(self.samples) < 6:
            self.samples.append(
                [f"{p[0]}={p[4]}" for p in ex.points] + ex.notes[:6]
            )

    def merge(self, o):
        self.execs += o.execs
        self.skipped += o.skipped
        self.steps += o.steps
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.max_points = max(self.max_points, o.max_points)
        if len(self.samples) < 12:
            self.samples.extend(o.samples[-2:])
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.capped |= o.capped


_SCEN = []
_KNOWN = set()
_DEADLINE = [0.0]


def _dfs_task(args):
    si, prefix, expect = args
    sc = _SCEN[si]
    acc = Acc()
    stack = [(prefix, expect)]
    n = 0
    while stack:
        if time.time() > _DEADLINE[0]:
            acc.capped = True
            break
        p, e = stack.pop()
        try:
            ex = run_once(sc, p, expect=e)
        except Divergence as d:
            return si, acc, ("DIVERGENCE", p, str(d), n)
        n += 1
        if ex.violation is not None:
            k = f"{sc.name}|{ex.violation[0]}"
            if k in _KNOWN:
                acc.known[k] = acc.known.get(k, 0) + 1
            else:
                return si, acc, (
                    "VIOLATION",
                    [q[2] for q in ex.points],
                    ex.violation,
                    [f"{q[0]}={q[4]}" for q in ex.points],
                    (list(prefix), n),
                )
        acc.add_exec(ex)
        ch = children(sc, p, ex.points)
        stack.extend(reversed(ch))
    return si, acc, None


def _bfs_task(args):
    si, histories = args
    sc = _SCEN[si]
    out = []
    for h in histories:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        try:
            res = sc.expand(h)
        except Hang:
            res = [(None, None, ("hang", f"history {h} hangs"), 0)]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out.append((h, res))
    return si, out


def fork_call(fn, *args, timeout=300):
    """Run ``fn`` in a fresh fork of this process and return its result."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def body():
        try:
            w.send(("ok", fn(*args)))
        except BaseException:
            w.send(("err", traceback.format_exc()))
        finally:
            w.close()
            os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    w.close()
    res = ("err", "no result")
    if r.poll(timeout):
        try:
            res = r.recv()
        except EOFError:
            pass
    if p.is_alive():
        p.join(1)
        if p.is_alive():
            p.kill()
    p.join()
    return res


def _replay_fresh(sc, choices, lenient):
    ex = run_once(sc, choices, lenient=lenient)
    return (
        ex.violation,
        [q[2] for q in ex.points],
        [f"{q[0]}={q[4]}" for q in ex.points],
        ex.steps,
        sorted(ex.outcomes),
        ex.notes,
    )


def _task_prefix_fresh(sc, prefix, n):
    """Re-run the first ``n`` executions of a task; return the last one."""
    stack = [prefix]
    ex = None
    for _ in range(n):
        p = stack.pop()
        ex = run_once(sc, p)
        stack.extend(q for q, _ in reversed(children(sc, p, ex.points)))
        if ex.violation is not None and f"{sc.name}|{ex.violation[0]}" not in _KNOWN:
            break
    return ex.violation


def shrink(sc, choices, key, budget_s=40):
    """Greedy minimisation towards default choices, in fresh forks."""
    t0 = time.time()
    best = list(choices)
    changed = True
    while changed and time.time() - t0 < budget_s:
        changed = False
        for i in reversed(range(len(best))):
            if best[i] == 0:
                continue
            for alt in [0] + list(range(1, min(best[i], 4))):
                cand = best[:i] + [alt] + best[i + 1:]
                st, r = fork_call(_replay_fresh, sc, cand, True, timeout=90)
                if st == "ok" and r[0] is not None and r[0][0] == key:
                    got = r[1]
                    if sum(x > 0 for x in got) < sum(x > 0 for x in best) or (
                        got != best and got < best
                    ):
                        best = got
                        changed = True
                        break
            if time.time() - t0 > budget_s:
                break
    return best


class Result:
    def __init__(self):
        self.acc = {}
        self.violation = None
        self.error = None
        self.known = {}


def explore(scenarios, known, cap_s, workers=None, log=None):
    """Explore all scenarios; stop at the first violation not known."""
    global _SCEN, _KNOWN
    _SCEN = scenarios
    _KNOWN = set(known)
    t0 = time.time()
    _DEADLINE[0] = t0 + cap_s
    workers = workers or int(os.environ.get("RBM_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    res = Result()
    for sc in scenarios:
        res.acc[sc.name] = Acc()

    def stop():
        return res.violation is not None or res.error is not None

    dfs = [(i, s) for i, s in enumerate(scenarios) if isinstance(s, Scenario)]
    bfs = [(i, s) for i, s in enumerate(scenarios) if isinstance(s, BFSScenario)]

    # determinism: the default execution, replayed in fresh processes, must
    # make the same choices and observations
    for si, sc in dfs:
        a = fork_call(_replay_fresh, sc, [], False)
        b = fork_call(_replay_fresh, sc, [], False)
        if a[0] != "ok" or b[0] != "ok":
            res.error = f"{sc.name}: {a[1] if a[0] != 'ok' else b[1]}"
            return res
        if a[1][1:5] != b[1][1:5]:
            res.error = f"{sc.name}: default execution is not deterministic"
            return res

    ctx = mp.get_context("fork")
    ROUND_EXECS = 0

    # frontier: run shallow prefixes in fresh forks until enough tasks exist
    tasks = []
    for si, sc in dfs:
        st, r = fork_call(_frontier, si, 150, timeout=600)
        if st != "ok":
            res.error = f"{sc.name}: frontier: {r}"
            return res
        acc, vio, pend = r
        res.acc[sc.name].merge(acc)
        if vio is not None:
            _record(res, sc, vio)
            return res
        tasks.extend((si, p, e) for p, e in pend)
    # deepest subtrees (short prefixes) first
    tasks.sort(key=lambda t: len(t[1]))
    if tasks:
        with ctx.Pool(workers, maxtasksperchild=1) as pool:
            for si, acc, vio in pool.imap_unordered(_dfs_task, tasks, 1):
                sc = scenarios[si]
                res.acc[sc.name].merge(acc)
                if vio is not None:
                    pool.terminate()
                    _record(res, sc, vio)
                    break
    if stop():
        return res

    for si, sc in bfs:
        acc = res.acc[sc.name]
        seen = set()
        frontier = [()]
        acc.levels = []
        for d in range(sc.depth):
            chunks = [frontier[i::max(1, min(len(frontier), workers * 6))]
                      for i in range(min(len(frontier), workers * 6))]
            nxt = []
            with ctx.Pool(workers, maxtasksperchild=1) as pool:
                # ordered, so the set of representatives is deterministic
                for _, out in pool.imap(
                    _bfs_task, [(si, c) for c in chunks], 1
                ):
                    for h, succ in out:
                        for op, key, vio, steps in succ:
                            acc.steps += steps
                            if op is not None:
                                acc.execs += 1
                            if vio is not None:
                                k = f"{sc.name}|{vio[0]}"
                                if k in _KNOWN:
                                    acc.known[k] = acc.known.get(k, 0) + 1
                                    continue
                                res.violation = dict(
                                    scenario=sc.name, key=vio[0],
                                    msg=vio[1],
                                    history=[list(map(str, [o]))[0] for o in h]
                                    + [str(op)],
                                    bfs=[o for o in h] + [op],
                                )
                                pool.terminate()
                                return res
                            kh = _h(key)
                            if kh not in seen:
                                seen.add(kh)
                                nxt.append(h + (op,))
                    if time.time() > _DEADLINE[0]:
                        acc.capped = True
                        pool.terminate()
                        break
            acc.levels.append((len(frontier), len(nxt)))
            if len(acc.samples) < 12:
                acc.samples.extend([str(x) for x in h] for h in nxt[:: max(1, len(nxt) // 2)][:2])
            frontier = nxt
            if acc.capped or not frontier:
                break
        acc.states = seen
        acc.max_points = len(acc.levels)
    return res


def _frontier(si, want):
    sc = _SCEN[si]
    acc = Acc()
    pend = [([], None)]
    n = 0
    while pend and (len(pend) < want or n < 30) and n < 400:
        # the shortest prefix has the largest subtree
        p, e = pend.pop(min(range(len(pend)), key=lambda i: len(pend[i][0])))
        n += 1
        try:
            ex = run_once(sc, p, expect=e)
        except Divergence as d:
            return acc, ("DIVERGENCE", p, str(d), 0), []
        if ex.violation is not None:
            k = f"{sc.name}|{ex.violation[0]}"
            if k in _KNOWN:
                acc.known[k] = acc.known.get(k, 0) + 1
            else:
                return acc, (
                    "VIOLATION", [q[2] for q in ex.points], ex.violation,
                    [f"{q[0]}={q[4]}" for q in ex.points], None,
                ), []
        acc.add_exec(ex)
        pend.extend(children(sc, p, ex.points))
    return acc, None, pend


def _record(res, sc, vio):
    if vio[0] == "DIVERGENCE":
        res.error = f"{sc.name}: divergence at {vio[1]}: {vio[2]}"
        return
    _, choices, (key, msg), trace, task = vio
    out = dict(scenario=sc.name, key=key, msg=msg, choices=choices,
               trace=trace, task=task, reproduced=None)
    st, r = fork_call(_replay_fresh, sc, choices, False, timeout=120)
    if st == "ok" and r[0] is not None:
        out["reproduced"] = "fresh process"
        if key != "hang":
            best = shrink(sc, choices, r[0][0])
            st, r2 = fork_call(_replay_fresh, sc, best, True, timeout=120)
            if st == "ok" and r2[0] is not None:
                out.update(choices=r2[1], trace=r2[2], key=r2[0][0],
                           msg=r2[0][1])
    elif task is not None:
        st, r = fork_call(_task_prefix_fresh, sc, task[0], task[1],
                          timeout=400)
        if st == "ok" and r is not None:
            out["reproduced"] = "task replay (depends on earlier executions)"
        else:
            out["reproduced"] = "no"
    else:
        out["reproduced"] = "in sequence only"
    res.violation = out
