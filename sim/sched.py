"""Deterministic scheduler: real threads, exactly one of which runs at any time (baton passing).

Every place where control can move to another task is a numbered decision; a seeded policy or an explicit
switch list decides it.  In instruction mode the decisions are at every bytecode instruction of the code under
test (sys.monitoring); in call mode they are at explicit yield points (simulated system calls, sleeps, locks).
Simulated time only moves when nothing is runnable or when a simulated operation takes time."""
import sys
from . import real


class SimAbort(BaseException):
    """Raised inside tasks to unwind them when a run is over."""


class SimCrash(BaseException):
    """The simulated process was killed."""


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    pass


class CUR:
    """What the seams look at: the world and scheduler of the run in progress (None outside runs)."""
    world = None
    sched = None


RUNNABLE, BLOCKED, SLEEPING, DONE = range(4)


class Task:
    __slots__ = ("id", "name", "fn", "lock", "state", "wake", "cond", "result", "error", "sched", "proc", "ident",
                 "kill", "nsteps")

    def __init__(self, sched, id, name, fn, proc):
        self.sched, self.id, self.name, self.fn, self.proc = sched, id, name, fn, proc
        self.lock = real.allocate_lock()
        self.lock.acquire()
        self.state = RUNNABLE
        self.wake = None
        self.cond = None
        self.result = None
        self.error = None
        self.ident = None
        self.kill = None
        self.nsteps = 0


class Policy:
    """seeded: decisions drawn from rng.  trace: decisions read from {step: task}."""

    def __init__(self, rng=None, switches=None, gap=200.0, p_call=0.3):
        self.rng, self.gap, self.p_call = rng, gap, p_call
        self.switches = None if switches is None else {int(k): int(v) for k, v in switches}
        self.keys = None if self.switches is None else sorted(self.switches)

    def next_after(self, step):
        if self.switches is not None:
            import bisect
            i = bisect.bisect_right(self.keys, step)
            return self.keys[i] if i < len(self.keys) else 1 << 60
        r = self.rng.random()
        g = self.gap
        if r < 0.25:
            g = g * 0.05
        elif r < 0.35:
            g = g * 5
        return step + 1 + int(self.rng.expovariate(1.0 / max(g, 0.5)))

    def pick(self, step, runnable, current, forced, call):
        """returns a task id among runnable"""
        ids = [t.id for t in runnable]
        if self.switches is not None:
            want = self.switches.get(step)
            if want in ids:
                return want
            if current is not None and current in ids:
                return current
            return ids[0]
        if forced or not call:
            return self.rng.choice(ids)
        if self.rng.random() < self.p_call:
            return self.rng.choice(ids)
        return current if current in ids else ids[0]


class Scheduler:
    def __init__(self, policy, clock, max_steps=2_000_000, on_switch=None):
        self.policy = policy
        self.clock = clock
        self.tasks = []
        self.current = None
        self.step = 0
        self.max_steps = max_steps
        self.next_event = 0
        self.recorded = []          # (step, task id) of every decision that changed the running task or a forced pick
        self.nswitch = 0
        self.sites = set()
        self.aborting = False
        self.failure = None
        self.main_lock = real.allocate_lock()
        self.main_lock.acquire()
        self.on_switch = on_switch
        self.instr = False
        self.interrupts = {}        # step -> exception class raised in whatever runs at that step
        self.trigger = None         # (step, callable) one-shot event in single-task instruction mode

    # ---- building
    def spawn(self, fn, name=None, proc=None):
        t = Task(self, len(self.tasks), name or "t%d" % len(self.tasks), fn, proc)
        self.tasks.append(t)
        real.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.lock.acquire()
        t.ident = real.get_ident()
        try:
            if self.aborting:
                raise SimAbort()
            t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # recorded, classified by the check
            t.error = e
        t.state = DONE
        self._leave(t)

    # ---- core
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == RUNNABLE:
                out.append(t)
            elif t.state == BLOCKED and t.cond():
                t.state = RUNNABLE
                t.cond = None
                out.append(t)
        return out

    def _advance(self):
        """nothing runnable: move simulated time to the next wake-up"""
        sl = [t for t in self.tasks if t.state == SLEEPING or (t.state == BLOCKED and t.wake is not None)]
        if not sl:
            return False
        w = min(t.wake for t in sl)
        self.clock.advance_to(w)
        for t in sl:
            if t.wake <= self.clock.mono:
                t.state = RUNNABLE
                t.wake = None
        return True

    def _forced(self, me):
        """me cannot continue; choose who runs next.  Returns task or None when all are done."""
        while True:
            if self.aborting:
                for t in self.tasks:
                    if t.state != DONE:
                        return t
                return None
            # wake timed blockers whose deadline passed
            run = self._runnable()
            if run:
                self.step += 1
                tid = self.policy.pick(self.step, run, None, True, True)
                if len(run) > 1:
                    self.recorded.append((self.step, tid))
                return self.tasks[tid]
            if all(t.state == DONE for t in self.tasks):
                return None
            if self._advance():
                continue
            self.failure = Deadlock("no task can run: " + ", ".join(
                t.name for t in self.tasks if t.state != DONE))
            self.aborting = True

    def _handoff(self, nxt):
        prev = self.current
        self.current = nxt
        self.nswitch += 1
        w = CUR.world
        if w is not None:
            w.log("run %d @%d" % (nxt.id, self.step))
        if self.on_switch:
            self.on_switch(prev, nxt)
        nxt.lock.release()

    def _leave(self, t):
        nxt = self._forced(t)
        if nxt is None:
            self.current = None
            self.main_lock.release()
        else:
            self._handoff(nxt)

    def run(self):
        """called from the harness thread; returns when every task is done or the run was aborted"""
        if not self.tasks:
            return
        self.next_event = self.policy.next_after(self.step)
        CUR.sched = self
        try:
            self._leave(None)
            self.main_lock.acquire()
        finally:
            CUR.sched = None
        if self.failure:
            raise self.failure

    # ---- called from tasks
    def _park(self, me):
        me.lock.acquire()
        if self.aborting:
            raise SimAbort()
        if me.kill is not None:
            k, me.kill = me.kill, None
            raise k

    def _switch_to(self, me, nxt):
        if nxt is me:
            return
        self._handoff(nxt)
        self._park(me)

    def instruction(self, code, off):
        """instruction-mode decision point (only reached when step >= next_event)"""
        me = self.current
        if me is None:
            return
        if self.step > self.max_steps:
            self.failure = StepLimit("more than %d steps" % self.max_steps)
            self.aborting = True
            raise SimAbort()
        run = self._runnable()
        tid = self.policy.pick(self.step, run, me.id, False, False)
        self.next_event = self.policy.next_after(self.step)
        if tid != me.id:
            self.recorded.append((self.step, tid))
            self.sites.add((code.co_name, off, tid))
            self._switch_to(me, self.tasks[tid])

    def yield_point(self, what=""):
        me = self.current
        if me is None or real.get_ident() != me.ident:
            return
        if self.aborting:
            raise SimAbort()
        self.step += 1
        if self.step > self.max_steps:
            self.failure = StepLimit("more than %d steps" % self.max_steps)
            self.aborting = True
            raise SimAbort()
        run = self._runnable()
        if len(run) > 1:
            tid = self.policy.pick(self.step, run, me.id, False, True)
            if tid != me.id:
                self.recorded.append((self.step, tid))
                self.sites.add((what, 0, tid))
                self._switch_to(me, self.tasks[tid])

    def sleep(self, dt):
        me = self.current
        me.state = SLEEPING
        me.wake = self.clock.mono + max(0.0, dt)
        nxt = self._forced(me)
        self._switch_or_self(me, nxt)

    def block(self, cond, timeout=None):
        """park until cond() is true (or simulated time runs out); returns whether it is"""
        me = self.current
        if cond():
            return True
        me.state = BLOCKED
        me.cond = cond
        me.wake = None if timeout is None else self.clock.mono + max(0.0, timeout)
        nxt = self._forced(me)
        self._switch_or_self(me, nxt)
        me.wake = None
        me.cond = None
        return bool(cond())

    def _switch_or_self(self, me, nxt):
        if self.aborting:
            me.state = RUNNABLE
            if nxt is me or nxt is None:
                raise SimAbort()
            self._switch_to(me, nxt)
            raise SimAbort()
        if nxt is me:
            return
        self._switch_to(me, nxt)

    def in_task(self):
        return self.current is not None and real.get_ident() == self.current.ident


# ---------------------------------------------------------------- instruction events
TOOL = 4
_instrumented = set()


def _callback(code, off):
    s = CUR.sched
    if s is None:
        return
    s.step += 1
    if s.step >= s.next_event:
        s.instruction(code, off)


def instrument(code_objects):
    """ask the interpreter for an event before every instruction of these functions"""
    M = sys.monitoring
    if not _instrumented:
        M.use_tool_id(TOOL, "verif-sim")
        M.register_callback(TOOL, M.events.INSTRUCTION, _callback)
    for c in code_objects:
        if c not in _instrumented:
            M.set_local_events(TOOL, c, M.events.INSTRUCTION)
            _instrumented.add(c)


class Stepper:
    """Single-task instruction counter used to interrupt a call at its n-th instruction.  Looks like a scheduler to
    the callback."""

    def __init__(self):
        self.step = 0
        self.next_event = 1 << 60
        self.exc = None
        self.fired = None
        self.limit = 1 << 60

    def arm(self, n, exc):
        self.step = 0
        self.exc = exc
        self.fired = None
        self.next_event = n if n is not None else self.limit

    def bound(self, n):
        """StepLimit after n instructions"""
        self.step, self.exc, self.fired = 0, None, None
        self.limit = self.next_event = n

    def instruction(self, code, off):
        if self.exc is not None and self.fired is None:
            self.fired = (code.co_name, off)
            self.next_event = self.limit
            e, self.exc = self.exc, None
            raise e
        if self.step >= self.limit:
            raise StepLimit("more than %d instructions" % self.limit)

    def __enter__(self):
        CUR.sched = self
        return self

    def __exit__(self, *a):
        CUR.sched = None

    def yield_point(self, what=""):
        pass

    def in_task(self):
        return False
