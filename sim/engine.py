"""Seeded search: plans -> runs in forked children -> verdicts, minimisation,
replay files and evidence."""
import copy
import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import sys
import time
import traceback

from . import boot, clock

_wall = time.monotonic          # real: bound before the seams are installed
CPU_LIMIT = 25                  # seconds of CPU per run before "never ends"
WALL_LIMIT = 240                # seconds without an answer: harness error


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls + ': ' + detail)
        self.cls = cls
        self.detail = detail


def _clean(s):
    """Scratch directory names differ between executions."""
    if boot.SCRATCH:
        # also as part of a module name, where other characters become _
        pat = ''.join(c if c.isalnum() else '\\W' if c != '_' else '_'
                      for c in boot.SCRATCH.strip('/'))
        pat = pat.replace('\\W', '[^A-Za-z0-9]')
        s = re.sub('[/_]?' + pat + r'[/_]run[-_]\d+', '<run>', s)
    # and so do the names of temporary files
    s = re.sub(r'\.pyc\.\d+\b', '.pyc.#', s)
    return re.sub(r'\.\d+\.\d+\.tmp\b', '.#.tmp', s)


class Result(object):
    """What one simulated run observed."""

    def __init__(self):
        self.violations = []      # [cls, detail]
        self.faults = {}          # kind -> times it actually fired
        self.probes = {}          # rare condition -> times reached
        self.events = []          # event log (strings)
        self.checks = 0           # oracle evaluations
        self.trail = None         # scheduling trail, hashed into `shape`
        self.shape = None
        self.sim_time = 0.0
        self.nontrivial = False
        self.reads = 0

    def violate(self, cls, detail):
        self.violations.append([cls, _clean(str(detail))[:2000]])

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def log(self, s):
        self.events.append(_clean(s))

    def pack(self):
        ev = hashlib.sha1('\n'.join(self.events).encode(
            'utf-8', 'backslashreplace')).hexdigest()
        shape = self.shape if self.shape is not None else self.trail
        sh = hashlib.sha1(_clean(repr(shape)).encode(
            'utf-8', 'backslashreplace')).hexdigest() \
            if shape is not None else ev
        return dict(violations=self.violations, faults=self.faults,
                    probes=self.probes, log=ev, shape=sh, checks=self.checks,
                    sim_time=self.sim_time, nontrivial=self.nontrivial,
                    nevents=len(self.events))


def run_seed(seed, prop, i):
    h = hashlib.sha256(('%s/%s/%d' % (seed, prop, i)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_plan(prop, seed, i, tier):
    s = run_seed(seed, prop.id, i)
    plan = prop.gen(random.Random(s), tier)
    plan['seed'] = s
    # plans are what replay files hold: make sure they survive JSON exactly
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- execution

def _child(prop, plan, wfd, keep_events):
    import gc
    import resource
    gc.disable()
    out = None
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CPU,
                           (prop.cpu_limit, prop.cpu_limit + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        workdir = os.path.join(boot.SCRATCH, 'run-%07d' % os.getpid())
        os.mkdir(workdir)
        os.chdir(workdir)
        clock.CLOCK.reset()
        clock.RANDOM.reset(plan.get('seed', 0) & 0xffffffff)
        res = Result()
        try:
            prop.run(plan, res, workdir)
        except Violation as v:
            res.violate(v.cls, v.detail)
        except Exception as e:
            # an error out of the code under test that no oracle expected
            if not _from_cheetah(e.__traceback__):
                raise
            res.violate('unexpected-error', ''.join(
                traceback.format_exception(type(e), e, e.__traceback__)[-6:]))
        res.sim_time += clock.CLOCK.covered
        out = res.pack()
        if keep_events:
            out['events'] = res.events[-4000:]
            out['trail'] = [[_clean(str(y)) for y in x] for x in (res.trail or [])][:2000]
    except BaseException:
        out = dict(error=traceback.format_exc())
    data = pickle.dumps(out)
    try:
        from .fs import _real
        data = struct.pack('>I', len(data)) + data
        while data:
            n = _real['write'](wfd, data)
            data = data[n:]
    finally:
        os._exit(0)


def _from_cheetah(tb):
    from . import sched
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if sched.traced_file(fn):
            return True
        tb = tb.tb_next
    return False


def _rm(path):
    import shutil
    shutil.rmtree(path, ignore_errors=True)


def execute(prop, plan, keep_events=False):
    """Run one plan in a forked child and return its packed result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(r)
        _child(prop, plan, w, keep_events)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    buf = b''
    deadline = _wall() + WALL_LIMIT
    need = None
    timed_out = False
    while True:
        left = deadline - _wall()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if need is None and len(buf) >= 4:
            need = struct.unpack('>I', buf[:4])[0] + 4
        if need is not None and len(buf) >= need:
            break
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)     # anything the run left behind
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    _rm(os.path.join(boot.SCRATCH, 'run-%07d' % pid))
    if need is not None and len(buf) >= need:
        return pickle.loads(buf[4:need])
    if timed_out:
        return dict(error='no answer within %d s of wall time' % WALL_LIMIT)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return _dead('never-ends',
                         'the run used %d s of CPU without ending'
                         % prop.cpu_limit)
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                   signal.SIGFPE, signal.SIGILL):
            return _dead('process-crash', 'the process died of signal %d'
                         % sig)
        return dict(error='run killed by signal %d' % sig)
    return dict(error='run ended without an answer (status %d)' % status)


def _dead(cls, detail):
    return dict(violations=[[cls, detail]], faults={}, probes={}, log=cls,
                shape=cls, checks=1, sim_time=0.0, nontrivial=True, nevents=0)


# ---------------------------------------------------------------- batch

def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def run_batch(prop, seed, tier, runs, workers, cap):
    """Runs 0..runs-1, run i on worker i % workers.  Returns results by run
    index; stops early after a violation or at the wall-clock cap."""
    stop_r, stop_w = os.pipe()
    pipes = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(stop_w)
            try:
                t0 = _wall()
                for i in range(w, runs, workers):
                    if select.select([stop_r], [], [], 0)[0]:
                        break
                    if _wall() - t0 > cap:
                        break
                    plan = make_plan(prop, seed, i, tier)
                    res = execute(prop, plan)
                    res['i'] = i
                    _send(wr, res)
            except BaseException:
                _send(wr, dict(i=-1, error=traceback.format_exc()))
            os._exit(0)
        os.close(wr)
        pipes.append((r, pid))
    results = {}
    errors = []
    bufs = {r: b'' for r, _ in pipes}
    live = {r for r, _ in pipes}
    stopped = False
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                live.discard(r)
                continue
            b = bufs[r] + chunk
            while len(b) >= 4:
                n = struct.unpack('>I', b[:4])[0]
                if len(b) < n + 4:
                    break
                res = pickle.loads(b[4:n + 4])
                b = b[n + 4:]
                if 'error' in res:
                    errors.append(res)
                else:
                    results[res['i']] = res
                if ('error' in res or (res.get('violations')
                                       and not prop.all_known(res))) \
                        and not stopped:
                    stopped = True
                    os.close(stop_w)
            bufs[r] = b
    if not stopped:
        os.close(stop_w)
    os.close(stop_r)
    for r, pid in pipes:
        os.close(r)
        os.waitpid(pid, 0)
    return results, errors


# ---------------------------------------------------------------- minimise

SHRINK_KEYS = ('ops', 'sched', 'faults', 'body', 'else', 'handler', 'finally',
               'threads', 'interrupts', 'defs', 'edits', 'steps', 'argb',
               'procs', 'draws', 'regions', 'reqs', 'ns')


def _lists(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if isinstance(v, list) and k in SHRINK_KEYS:
                yield path + (k,)
            for x in _lists(v, path + (k,)):
                yield x
    elif isinstance(node, list):
        for i, v in enumerate(node):
            for x in _lists(v, path + (i,)):
                yield x


def _get(node, path):
    for k in path:
        node = node[k]
    return node


def minimise(prop, plan, cls, budget_s=45, budget_runs=600):
    t0 = _wall()
    runs = [0]

    def fails(p):
        if runs[0] >= budget_runs or _wall() - t0 > budget_s:
            return False
        runs[0] += 1
        try:
            p = prop.repair(p)
        except Exception:
            return False
        if p is None:
            return False
        r = execute(prop, p)
        return any(v[0] == cls and not prop.known_match(v)
                   for v in r.get('violations', ()))

    best = plan
    changed = True
    while changed and runs[0] < budget_runs and _wall() - t0 < budget_s:
        changed = False
        for path in list(_lists(best)):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = len(lst)
            size = max(n, 1)
            while size >= 1 and n:
                i = 0
                while i < len(_get(best, path)):
                    cand = copy.deepcopy(best)
                    l2 = _get(cand, path)
                    del l2[i:i + size]
                    if fails(cand):
                        best = prop.repair(cand)
                        changed = True
                    else:
                        i += size
                    try:
                        _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                if size == 1:
                    break
                size //= 2
        for cand in prop.simplify(best):
            if fails(cand):
                best = prop.repair(cand)
                changed = True
    return best, runs[0]


# ---------------------------------------------------------------- known

def load_known():
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    out.append(json.loads(line))
    return out


class Prop(object):
    """Base class of a property's simulation."""
    id = None
    level = 'exploration'
    quick_runs = 400
    thorough_runs = 20000
    quick_cap = 60
    thorough_cap = 1500
    cpu_limit = CPU_LIMIT
    pure_share = False      # also run a share of the batch on pure NameMapper
    rule = ''
    real = []
    stubbed = []
    assumptions = []
    measure = ''
    known = ()

    def setup(self):
        """Called once after Cheetah is up, before any run is forked."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, res, workdir):
        raise NotImplementedError

    def repair(self, plan):
        return plan

    def simplify(self, plan):
        return ()

    def describe(self, plan):
        s = json.dumps(plan, sort_keys=True)
        return s if len(s) < 1500 else s[:1500] + '...'

    def all_known(self, res):
        return all(self.known_match(v) for v in res['violations'])

    def known_match(self, v):
        for k in self.known:
            if k.get('class') == v[0] and k.get('match', '') in v[1]:
                return k
        return None
