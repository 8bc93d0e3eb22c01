"""Deterministic thread scheduler.

Real threads, exactly one of which runs at a time.  A thread gives up the
processor only (a) when the plan says so at a traced line of Cheetah or of
generated template code, at a user callback or at a simulated file operation,
(b) when it blocks on a simulated lock, (c) when it ends.  Which thread runs
next is always the plan's decision, never the operating system's.

Simulated locks replace threading.Lock / RLock (and what is built from them)
for everything imported after install().
"""
import _thread
import os
import sys
import threading

_real_allocate = _thread.allocate_lock
_real_get_ident = _thread.get_ident


class Deadlock(BaseException):
    """Every unfinished simulated thread is blocked."""


class StepLimit(BaseException):
    """A thread used up its step budget: no progress."""


class _Kill(BaseException):
    pass


SCHED = None            # the active Scheduler, if any
TRACE_PREFIXES = []     # absolute path prefixes whose frames are traced
LOCK_STATS = {'acquire': 0, 'contended': 0}


class SimLock(object):
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = SCHED
        if s is not None:
            t = s.current_or_none()
            if t is not None:
                return t
        return 'main'

    def acquire(self, blocking=True, timeout=-1):
        LOCK_STATS['acquire'] += 1
        me = self._me()
        s = SCHED if me != 'main' else None
        if s is not None:
            s.point('lock')
        if self._owner is not None and self.reentrant and self._owner is me:
            self._count += 1
            return True
        waited = False
        while self._owner is not None:
            LOCK_STATS['contended'] += not waited
            waited = True
            if not blocking:
                return False
            if s is None:
                raise Deadlock('blocked for ever on a lock held by %s'
                               % _name(self._owner))
            if not s.block(self, timeout is not None and timeout >= 0):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self._owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0 or not self.reentrant:
            self._count = 0
            self._owner = None
            if SCHED is not None:
                SCHED.wake(self)
                if self._me() != 'main':
                    SCHED.point('unlock')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition and by _at_fork handlers
    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    def _is_owned(self):
        return self._owner is self._me()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def _name(o):
    return getattr(o, 'name', o)


def install():
    """Replace lock constructors; call after the standard library modules the
    harness needs are imported and before Cheetah is."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._RLock = SimRLock
    # importlib's module locks stay real: no thread is ever switched out or
    # interrupted inside importlib
    import importlib._bootstrap as boot
    import types
    real = types.ModuleType('_thread')
    real.__dict__.update(_thread.__dict__)
    boot._thread = real
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock


class SimThread(object):
    def __init__(self, index, fn, name):
        self.index = index
        self.fn = fn
        self.name = name
        self.gate = _real_allocate()
        self.gate.acquire()
        self.blocked_on = None
        self.timed = False
        self.timed_out = False
        self.done = False
        self.exc = None
        self.result = None
        self.steps = 0
        self.calls = 0
        self.pending_exc = None
        self.ident = None

    def __repr__(self):
        return self.name


class Scheduler(object):
    """sched: list of [gap, pick]; after `gap` more scheduling points, switch
    to runnable[pick % n].  interrupts: list of [thread, n, excname]: raise in
    that thread at its n-th traced function entry or blocking point."""

    def __init__(self, plan, trace_filter=None, opcodes=False,
                 step_limit=2000000, log=None, trace=True):
        self.trace = trace
        self.sched = [tuple(x) for x in plan.get('sched', ())]
        self.spos = 0
        self.countdown = self.sched[0][0] if self.sched else -1
        self.interrupts = {}
        for th, step, exc in plan.get('interrupts', ()):
            self.interrupts.setdefault(th, []).append((step, exc))
        for v in self.interrupts.values():
            v.sort()
        self.trace_filter = trace_filter
        self.opcodes = opcodes
        self.step_limit = step_limit
        self.threads = []
        self.current = None
        self.main_gate = _real_allocate()
        self.main_gate.acquire()
        self.by_ident = {}
        self.switches = 0
        self.steps = 0
        self.trail = []          # (thread, where) at each switch
        self.deadlock = None
        self.fired_interrupts = 0
        self.log = log
        self._code_cache = {}
        self.nopreempt = 0

    # -- set up ---------------------------------------------------------
    def spawn(self, fn, name=None):
        t = SimThread(len(self.threads), fn, name or 'T%d' % len(self.threads))
        self.threads.append(t)
        return t

    def current_or_none(self):
        return self.by_ident.get(_real_get_ident())

    def run(self):
        global SCHED
        SCHED = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            # all bodies wait at their gate; start with the plan's choice
            if self.threads:
                self._transfer_from_main()
                self.main_gate.acquire()
        finally:
            SCHED = None
        return self.threads

    def _transfer_from_main(self):
        first = self.threads[0]
        if self.sched and self.sched[0][0] == 0:
            first = self.threads[self.sched[0][1] % len(self.threads)]
            self._advance_sched()
        self.current = first
        first.gate.release()

    def _advance_sched(self):
        self.spos += 1
        if self.spos < len(self.sched):
            self.countdown = max(1, self.sched[self.spos][0])
        else:
            self.countdown = -1

    def _body(self, t):
        t.gate.acquire()
        t.ident = _real_get_ident()
        self.by_ident[t.ident] = t
        try:
            if self.trace:
                sys.settrace(self._tracer)
            t.result = t.fn(t)
        except _Kill:
            t.exc = None
            t.killed = True
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            self._leave(t)

    def _leave(self, t):
        del self.by_ident[t.ident]
        nxt = self._pick_after(t)
        if nxt is None:
            self.main_gate.release()
        else:
            self.current = nxt
            nxt.gate.release()

    # -- choosing ---------------------------------------------------------
    def runnable(self):
        return [t for t in self.threads if not t.done and t.blocked_on is None]

    def _pick_after(self, t):
        """Next thread when t cannot go on: the first runnable one after it;
        when none is, let one timed wait expire; else it is a deadlock."""
        r = self.runnable()
        if r:
            for x in r:
                if x.index > t.index:
                    return x
            return r[0]
        for x in self.threads:
            if not x.done and x.timed:
                x.timed_out = True
                x.blocked_on = None
                x.timed = False
                return x
        stuck = [x for x in self.threads if not x.done]
        if not stuck:
            return None
        if self.deadlock is None:
            self.deadlock = ', '.join(
                '%s waits for %s' % (x.name, _name(x.blocked_on._owner))
                for x in stuck)
        x = stuck[0]
        x.pending_exc = Deadlock(self.deadlock)
        x.blocked_on = None
        return x

    def _switch(self, me, nxt, where):
        if nxt is me:
            return
        self.switches += 1
        self.trail.append((me.index, where, nxt.index))
        self.current = nxt
        nxt.gate.release()
        me.gate.acquire()
        self._check_pending(me)

    def _check_pending(self, me):
        if me.pending_exc is not None:
            e, me.pending_exc = me.pending_exc, None
            raise e

    # -- points ---------------------------------------------------------
    def point(self, where):
        me = self.by_ident.get(_real_get_ident())
        if me is None or _in_import(sys._getframe(1)):
            return
        self._point(me, where)

    def _point(self, me, where):
        self.steps += 1
        me.steps += 1
        if where.__class__ is str:
            self._maybe_interrupt(me, where)
        if self.steps > self.step_limit:
            raise StepLimit('no end after %d steps' % self.step_limit)
        if self.countdown > 0:
            self.countdown -= 1
            if self.countdown == 0:
                pick = self.sched[self.spos][1]
                self._advance_sched()
                r = [x for x in self.runnable() if x is not me]
                if r:
                    self._switch(me, r[pick % len(r)], where)

    def _maybe_interrupt(self, me, where):
        """Interrupts arrive where CPython delivers them: on function entry
        and inside blocking or user code, not between arbitrary lines."""
        me.calls += 1
        iq = self.interrupts.get(me.index)
        if iq and me.calls >= iq[0][0]:
            _, exc = iq.pop(0)
            self.fired_interrupts += 1
            self.trail.append((me.index, where, exc))
            raise EXCEPTIONS[exc]('simulated interrupt')

    def block(self, lock, timed):
        """Called by a lock with the current thread; True = retry, False =
        timed out."""
        me = self.by_ident[_real_get_ident()]
        me.blocked_on = lock
        me.timed = timed
        me.timed_out = False
        nxt = self._pick_after(me)
        self._switch(me, nxt, 'block')
        self._check_pending(me)
        me.timed = False
        return not me.timed_out

    def wake(self, lock):
        for t in self.threads:
            if t.blocked_on is lock:
                t.blocked_on = None

    # -- tracing ---------------------------------------------------------
    def _tracer(self, frame, event, arg):
        code = frame.f_code
        v = self._code_cache.get(code)
        if v is None:
            v = self._code_cache[code] = self._want(code)
        if v:
            me = self.by_ident.get(_real_get_ident())
            if me is not None and self.interrupts and \
                    not _in_import(frame):
                self._maybe_interrupt(me, (code.co_filename, code.co_name))
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _want(self, code):
        fn = code.co_filename
        if not traced_file(fn):
            return False
        if self.trace_filter is not None:
            return bool(self.trace_filter(fn, code.co_name))
        return True

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            me = self.by_ident.get(_real_get_ident())
            if me is not None:
                if self.countdown == 1 and _in_import(frame):
                    return self._local
                self._point(me, (frame.f_code.co_filename, frame.f_lineno))
        return self._local


def _in_import(frame):
    """Python's own import locks are not simulated, so a thread is never
    switched out while it is inside importlib."""
    f = frame
    while f is not None:
        if f.f_code.co_filename.startswith('<frozen importlib'):
            return True
        f = f.f_back
    return False


EXCEPTIONS = {'KeyboardInterrupt': KeyboardInterrupt,
              'MemoryError': MemoryError, 'SystemExit': SystemExit}


def traced_file(fn):
    if fn.startswith('<'):
        return False
    if not fn.startswith(os.sep):
        return True               # generated template modules: bare file name
    for p in TRACE_PREFIXES:
        if fn.startswith(p):
            return True
    return False
