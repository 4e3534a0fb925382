"""Node initialisation: master states, faults and histories of nodes and masters."""
import atexit
import socket
import warnings

from mc.explore import Scenario

ASSUMPTIONS = [
    "stand-ins for rospy and roslaunch (not installed): one master at a time, owned by a "
    "launcher or by somebody else; contacting it without one raises ConnectionRefusedError",
    "interpreter exit: the exit functions registered during the execution are run",
]


class Faults(Exception):
    pass


ERRORS = {
    "refused": lambda: ConnectionRefusedError(111, "Connection refused"),
    "unknown host": lambda: socket.gaierror(-2, "Name or service not known"),
    "timeout": lambda: socket.timeout("timed out"),
    "reset": lambda: ConnectionResetError(104, "reset"),
    "master error": lambda: Faults("unexpected reply"),
    "interrupt": lambda: KeyboardInterrupt(),
}


class System:
    """Master ownership; hooks into the stand-ins."""

    def __init__(self, ch):
        import _ros

        self.ch, self.w = ch, _ros.reset()
        self.owner = None  # None, "foreign" or launcher
        self.launchers = []
        self.nodes = []
        self.fault = {}
        self.killed_foreign = False
        w = self.w
        w.master_pid = self.pid
        w.on_init_node = self.node
        sysm = self

        class Launcher:
            def __init__(self, run_id, roslaunch_files, is_core=False, **kw):
                sysm.raise_("construct")
                self.core = is_core
                self.files = list(roslaunch_files)
                self.started = False
                self.stopped = 0
                sysm.launchers.append(self)

            def start(self, *a, **kw):
                sysm.raise_("start")
                ch.check(self.core, "launcher is not a core", "started without a master")
                ch.check(not self.files, "launcher", f"launches {self.files}")
                ch.check(sysm.owner is None, "second master",
                         "master started although one is running")
                sysm.owner = self
                self.started = True
                sysm.raise_("after start")

            def shutdown(self):
                self.stopped += 1
                if sysm.owner is self:
                    sysm.owner = None

        w.launcher = Launcher

    def raise_(self, where):
        if where in self.fault:
            raise ERRORS[self.fault[where]]()

    def pid(self):
        self.raise_("contact")
        if self.owner is None:
            raise ConnectionRefusedError(111, "Connection refused")
        return (1, "", 4711)

    def node(self, name):
        self.raise_("node")
        self.ch.check(self.owner is not None, "node without a master", name)
        self.nodes.append(name)


def call(ch, s, name, allow, spell="keyword"):
    """init_node; returns ("ok", master) or ("raised", exception)."""
    from rigid_body_motion.ros import init_node

    before = s.owner
    nodes, launched = list(s.nodes), list(s.launchers)
    fault = dict(s.fault)
    try:
        if allow is None:
            m = init_node(name)
        elif spell == "keyword":
            m = init_node(name, start_master=allow)
        else:
            m = init_node(name, allow)
        res = ("ok", m)
    except BaseException as e:
        if type(e).__name__ in ("Violation", "Divergence", "Hang"):
            raise
        res = ("raised", e)
    ch.step()
    new = [x for x in s.launchers if x not in launched and x.started]
    what = lambda: f"master {before and (before if before == 'foreign' else 'own')}, permission {allow}, faults {fault}: {res}"
    expect_fail = None
    if "contact" in fault:
        refused = fault["contact"] == "refused"
    else:
        refused = before is None
    if "contact" in fault and not refused:
        expect_fail = fault["contact"]
        ch.check(not new, "master started", what)
    elif refused and not allow:
        expect_fail = "no master"
        ch.check(not new, "master started", what)
    elif refused and ("construct" in fault or "start" in fault or "after start" in fault):
        expect_fail = [fault[k] for k in ("construct", "start", "after start") if k in fault][0]
    elif "node" in fault:
        expect_fail = fault["node"]
    if expect_fail:
        ch.check(res[0] == "raised", "failure hidden", what)
        ch.check(s.nodes == nodes, "node registered in spite of a failure", what)
        if expect_fail in ERRORS:
            ch.check(type(res[1]) is type(ERRORS[expect_fail]()), "failure replaced", what)
        else:
            ch.check(isinstance(res[1], Exception), "failure replaced", what)
        return res
    ch.check(res[0] == "ok", "initialisation failed", what)
    ch.check(s.nodes == nodes + [name], "node registered exactly once", lambda: f"{what()} {s.nodes}")
    if refused:
        ch.check(len(new) == 1, "master not started exactly once", what)
        ch.check(s.owner is new[0], "master not running", what)
        ch.check(res[1] is new[0] or callable(getattr(res[1], "shutdown", None)),
                 "returned master", what)
    else:
        ch.check(not new, "master started", what)
        ch.check(s.owner is before, "running master stopped", what)
    return res


def stop(ch, s, m):
    """shutdown() of a returned object; returns warnings."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        m.shutdown()
    ch.step()
    return ws


def leave(ch, s, foreign_running):
    """Interpreter exit."""
    own = s.owner if s.owner not in (None, "foreign") else None
    atexit._run_exitfuncs()
    ch.step()
    if own is not None:
        ch.check(s.owner is None and own.stopped, "own master left running at exit", "")
    if foreign_running:
        ch.check(s.owner == "foreign", "foreign master shut down", "at exit")


def single(ch):
    """Every master state, permission and fault at every call."""
    atexit._clear()
    s = System(ch)
    s.owner = ch.choose("master", [None, "foreign"], free=True)
    allow = ch.choose("start_master", [None, False, True], free=True)
    spell = ch.choose("given as", ["keyword", "positional"], free=True)
    name = ch.choose("name", ["node", "/ns/node_1"], free=True)
    where = ch.choose("fault at", [None, "contact", "construct", "start", "after start", "node"], free=True)
    if where:
        s.fault[where] = ch.choose("fault", list(ERRORS), free=True)
    refused_fault = s.fault.get("contact") == "refused"
    ch.assume(not (refused_fault and s.owner == "foreign"))
    ch.state(s.owner, allow, spell, name, str(s.fault))
    was = s.owner
    res = call(ch, s, name, allow, spell)
    s.fault = {}
    if res[0] == "ok":
        ws = []
        if ch.flag("shut down", free=True):
            ws = stop(ch, s, res[1])
            if was == "foreign":
                ch.check(s.owner == "foreign", "foreign master shut down", "")
                ch.check(len(ws) == 1, "no warning", "shutting down a foreign master")
            else:
                ch.check(s.owner is None, "own master not shut down", "")
                ch.check(not ws, "warning", str([str(x.message) for x in ws]))
    elif where == "after start":
        # not started completely: cleaning up is up to the launcher
        atexit._run_exitfuncs()
        return
    leave(ch, s, was == "foreign" or s.owner == "foreign")


def histories(ch, depth):
    """Sequences of initialisations, shutdowns and foreign masters."""
    atexit._clear()
    s = System(ch)
    s.owner = ch.choose("master", [None, "foreign"], free=True)
    got, partial = [], []
    for k in range(depth):
        ops = ["init", "init and start"]
        if got:
            ops += [f"shut down {i}" for i in range(len(got))]
        ops += ["foreign master ends"] if s.owner == "foreign" else []
        ops += ["foreign master starts"] if s.owner is None else []
        ops += ["own master dies"] if s.owner not in (None, "foreign") else []
        ops += ["failing init", "failing start"]
        op = ch.choose(f"operation {k}", ops, free=True)
        before = s.owner
        if op.startswith("init"):
            r = call(ch, s, f"n{k}", op != "init")
            if r[0] == "ok":
                got.append((r[1], s.owner if before is None else None))
        elif op.startswith("failing"):
            s.fault = {"node" if op == "failing init" else "after start": "master error"}
            r = call(ch, s, f"n{k}", True)
            s.fault = {}
            if r[0] == "ok":  # running master, nothing to start
                got.append((r[1], None))
            elif before is None and op == "failing start":
                partial.append(s.owner)
        elif op.startswith("shut down"):
            m, own = got[int(op.split()[-1])]
            ws = stop(ch, s, m)
            if own is None:
                ch.check(s.owner is before, "foreign master shut down", "by the stub")
                ch.check(len(ws) == 1, "no warning", "shutting down a foreign master")
            else:
                ch.check(s.owner is (None if before is own else before), "wrong master shut down", op)
                ch.check(s.owner is not own, "own master not shut down", op)
                ch.check(not ws, "warning", str([str(x.message) for x in ws]))
        elif op == "foreign master starts":
            s.owner = "foreign"
        else:
            s.owner = None
        ch.state(k, op, s.owner if s.owner in (None, "foreign") else "own", len(got), len(s.nodes))
    ch.outcome(len(s.nodes), len(s.launchers))
    own = s.owner if s.owner not in (None, "foreign") else None
    if own is not None and any(o is own for o in partial):
        # not started completely: cleaning up is up to the launcher
        atexit._run_exitfuncs()
        return
    leave(ch, s, s.owner == "foreign")


def scenarios(tier):
    return [
        Scenario("single initialisation with faults", single, 0),
        Scenario("histories", lambda ch: histories(ch, 4 if tier == "quick" else 6), 0),
    ]
