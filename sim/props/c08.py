"""C08: parallel command-line runs report every failed or killed worker.

The command and each of its workers are real forked processes.  Every one
of them asks the controller (this process) before each file operation, each
start of a worker, each wait for a worker and its own end; the controller
grants one request at a time, so the plan decides the interleaving of
workers, the order in which they end and are waited for, which of them are
killed, and which of them cannot be started."""
import errno
import io
import os
import pickle
import shutil
import signal

from .. import cli
from ..clock import CLOCK
from ..engine import Prop, Violation
from ..fs import FS, _real
from .c07 import MENDED

SIGNALS = ['SIGKILL', 'SIGKILL', 'SIGTERM', 'SIGSEGV']
KINDS = ['enospc', 'eio', 'eacces', 'emfile', 'short']
SLOTS = 24
MAX_STEPS = 6000
_exit = os._exit


class Pipe(object):
    """Messages between one process and the controller."""

    def __init__(self):
        self.ar, self.aw = os.pipe()
        self.gr, self.gw = os.pipe()

    def keep_client(self):
        os.close(self.ar)
        os.close(self.gw)

    def keep_server(self):
        os.close(self.aw)
        os.close(self.gr)

    def drop_client(self):
        os.close(self.aw)
        os.close(self.gr)

    def ask(self, *m):
        put(self.aw, m)
        g = take(self.gr)
        if g is None:
            _exit(3)
        return g

    def tell(self, *m):
        put(self.aw, m)


def put(fd, m):
    d = pickle.dumps(m)
    d = len(d).to_bytes(4, 'big') + d
    while d:
        d = d[_real['write'](fd, d):]


def take(fd):
    head = _read(fd, 4)
    if head is None:
        return None
    body = _read(fd, int.from_bytes(head, 'big'))
    return None if body is None else pickle.loads(body)


def _read(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


class C08(Prop):
    id = 'C08'
    quick_runs = 7000
    thorough_runs = 100000
    quick_cap = 70
    rule = ('a seed makes a tree of two to seven templates, the options of a '
            'parallel compile or fill with two to four workers, an '
            'interleaving of the workers\' file operations and of the '
            'command\'s own starts and waits, the order in which ended '
            'workers are waited for, and failures: workers killed by a '
            'signal at any request, workers that cannot be started, disk '
            'faults in a worker, sources that do not compile or fail when '
            'filled. A serial run of the same tree is the reference. '
            'Non-trivial: at least one switch between running workers, or a '
            'failure.')
    measure = 'distinct interleavings of requests (operation and path)'
    real = ['CheetahWrapper, Template, Compiler, Parser, generated code, '
            'fork, wait, signals, processes and files of the system']
    stubbed = ['clock and file times', 'file faults', 'directory order',
               'which process runs next and which ended worker a wait '
               'returns', 'the interpreter around main()']
    assumptions = ['the command process itself is not killed or interrupted',
                   'no two sources have the same output, and no output is a '
                   'source or an __init__.py']

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3, 3, 4, 5, 7])
        plan = cli.gen_tree(rng, tier, n, bad=rng.choice([0, 0, 0, 0.15]))
        o = plan['opts']
        o['parallel'] = rng.choice([2, 2, 2, 3, 4])
        o['odir'] = rng.choice(['', 'out', 'out', 'out/x'])
        for t in plan['tmpl']:
            t['rep'] = rng.choice([1, 1, 4])
        same = rng.random()
        if same < 0.4:
            d = rng.choice(['', 'sub', 'sub/deep'])
            for t in plan['tmpl']:
                t['dir'] = d
                t.pop('name', None)
                t['old'] = t['old'] and same < 0.15
                t['bak'] = t['bak'] and same < 0.15
        sched = []
        for _ in range(rng.choice([0, 2, 6, 15, 40])):
            sched.append([rng.choice([1, 1, 1, 2, 3, 5, 9, 20]),
                          rng.randrange(8)])
        plan['sched'] = sched
        plan['reap'] = [rng.randrange(4) for _ in range(rng.randrange(4))]
        plan['faults'] = []
        mode = rng.choice(['none', 'none', 'kill', 'kill', 'kill', 'fork',
                           'disk', 'two', 'two'])
        kinds = {'none': [], 'two': [rng.choice(['kill', 'disk', 'fork']),
                                     'kill']}.get(mode, [mode])
        for k in kinds:
            if k == 'kill':
                plan['faults'].append(
                    ['kill', rng.randrange(n), rng.choice(
                        [0, rng.randrange(12), rng.randrange(25), -1]),
                     rng.choice(SIGNALS)])
            elif k == 'fork':
                plan['faults'].append(['fork', rng.randrange(n)])
            else:
                kind = rng.choice(KINDS)
                plan['faults'].append(
                    ['disk', rng.randrange(n),
                     'w%d' % rng.randrange(1, 4)
                     if kind in ('enospc', 'short')
                     else 'c%d' % rng.randrange(1, 5)
                     if rng.random() < 0.3
                     else rng.randrange(1, 9), kind])
        return plan

    def repair(self, plan):
        return plan if cli.distinct(plan) else None

    def simplify(self, plan):
        import copy
        for k, v in (('idir', ''), ('odir', ''), ('flat', False),
                     ('recurse', False), ('quiet', False), ('oext', None),
                     ('encoding', None), ('parallel', 2), ('dirorder', 0),
                     ('iext', None), ('how', None)):
            if plan['opts'].get(k) not in (v, None):
                c = copy.deepcopy(plan)
                c['opts'][k] = v
                yield c
        for i, t in enumerate(plan['tmpl']):
            if len(plan['tmpl']) > 1 and i == len(plan['tmpl']) - 1:
                c = copy.deepcopy(plan)
                del c['tmpl'][i]
                yield c
            for k, v in (('rep', 1), ('dir', ''), ('bak', False),
                         ('old', False), ('oldsize', 1),
                         ('body', [['t', 1]])):
                if t[k] != v:
                    c = copy.deepcopy(plan)
                    c['tmpl'][i][k] = v
                    if k == 'body':
                        c['tmpl'][i]['enc'] = False
                    yield c

    # ------------------------------------------------------------ running
    def run(self, plan, res, workdir):
        import Cheetah.CheetahWrapper    # noqa: before anything is hooked
        root = os.path.join(workdir, 'work')
        tree = cli.Tree(plan, root)
        tree.build()
        CLOCK.advance(5)
        serial = self.serial(tree)
        reference = tree.snapshot()
        shutil.rmtree(root)
        CLOCK.advance(-5)
        tree.build()
        CLOCK.advance(5)
        bad = [i for i, t in enumerate(plan['tmpl']) if t['bad']]
        if tree.collides():
            bad = [0]
        if bool(bad) != (serial != 0):
            raise Violation('serial-status', 'the serial run ended with %s, '
                            'bad sources: %s' % (serial, bad))
        status, failures = self.parallel(tree, plan, res)
        after = tree.snapshot()
        res.checks += 1
        for k in sorted(after):
            res.log('%s %d' % (k, len(after[k])))
        res.log('status %s' % status)
        if status == 0:
            if failures:
                raise Violation('failure-not-reported', 'exit status 0 '
                                'although %s' % '; '.join(failures))
            if bad:
                raise Violation('failure-not-reported', 'exit status 0 '
                                'although %s is bad' % tree.src(bad[0]))
            for k in sorted(set(reference) | set(after)):
                a, b = reference.get(k), after.get(k)
                if a != b:
                    raise Violation(
                        'not-as-serial', '%s: the serial run gives %r, the '
                        'parallel run %r' % (k, a and a[:200], b and b[:200]))
        elif not failures and not bad:
            raise Violation('unexpected-failure', 'exit status %s without '
                            'any failure: %s' % (status, self.stderr[-300:]))
        if failures or bad:
            res.nontrivial = True

    def serial(self, tree):
        pid = os.fork()
        if pid == 0:
            st = 99
            try:
                os.chdir(tree.root)
                cli.order_directories(tree.o['dirorder'])
                FS.begin(tree.root, {})
                st = cli.run_command(tree.argv(parallel=None),
                                     io.StringIO())
            finally:
                os._exit(st)
        st = os.waitpid(pid, 0)[1]
        if not os.WIFEXITED(st) or os.WEXITSTATUS(st) == 99:
            raise RuntimeError('the serial run ended with %d' % st)
        return os.WEXITSTATUS(st)

    # ------------------------------------------------------- the processes
    def command(self, tree, plan, pipes):
        """The command process and, after a fork, its workers."""
        me = self
        me.pipe = pipes[0]
        me.worker = False
        for p in pipes:
            os.close(p.ar)
            os.close(p.gw)
        slot_of = {}

        def on_point(op, path):
            g = me.pipe.ask('turn', '%s %s' % (op, path))
            CLOCK.now = g[1]

        def fork():
            g = me.pipe.ask('fork')
            CLOCK.now = g[1]
            if g[0] == 'fail':
                raise BlockingIOError(errno.EAGAIN,
                                      os.strerror(errno.EAGAIN))
            slot, fault = g[2], g[3]
            pid = real_fork()
            if pid == 0:
                old = me.pipe
                me.pipe = pipes[slot]
                me.worker = True
                old.drop_client()
                for k in range(slot + 1, len(pipes)):
                    pipes[k].drop_client()
                FS.faults = dict(fault)
                FS.count = FS.writes = 0
                FS.hits, FS.fired = [], {}
                g = me.pipe.ask('turn', 'start', os.getpid())
                CLOCK.now = g[1]
                return 0
            pipes[slot].drop_client()
            slot_of[pid] = slot
            return pid

        def wait_for(pid, options):
            if pid > 0 and pid not in slot_of:
                raise ChildProcessError(errno.ECHILD,
                                        os.strerror(errno.ECHILD))
            g = me.pipe.ask('wait', slot_of[pid] if pid > 0 else -1,
                            options)
            CLOCK.now = g[1]
            if g[0] == 'none':
                return 0, 0
            if g[0] == 'echild':
                raise ChildProcessError(errno.ECHILD,
                                        os.strerror(errno.ECHILD))
            p = [k for k, v in slot_of.items() if v == g[2]][0]
            p, st = real_waitpid(p, 0)
            del slot_of[p]
            return p, st

        real_fork, real_waitpid = os.fork, os.waitpid
        os.fork = fork
        os.wait = lambda: wait_for(-1, 0)
        os.waitpid = wait_for
        os.wait3 = lambda o: wait_for(-1, o) + (None,)
        os.wait4 = lambda p, o: wait_for(p, o) + (None,)
        os.chdir(tree.root)
        cli.order_directories(tree.o['dirorder'])
        FS.count_lookups = False
        FS.begin(tree.root, {}, on_point=on_point)
        real_exit = os._exit

        def end(status):
            FS.active = False
            me.pipe.ask('end', status, list(FS.hits), dict(FS.fired),
                        cli.last_error[0])
            real_exit(status)
        os._exit = end
        try:
            status = cli.run_command(tree.argv(), io.StringIO())
            end(status)
        finally:
            real_exit(99)

    # ------------------------------------------------------- the controller
    def parallel(self, tree, plan, res):
        pipes = [Pipe() for _ in range(SLOTS)]
        pid = os.fork()
        if pid == 0:
            try:
                self.command(tree, plan, pipes)
            finally:
                os._exit(98)
        for p in pipes:
            p.keep_server()
        self.res = res
        self.procs = {0: dict(slot=0, state='running', name='command')}
        self.pipes = pipes
        self.stderr = ''
        self.failures = []
        self.forks = 0
        self.trail = []
        self.polled = False
        self.limit = plan['opts']['parallel']
        try:
            self.drive(plan)
        finally:
            for p in pipes:
                os.close(p.gw)
            st = os.waitpid(pid, 0)[1]
            for p in pipes:
                os.close(p.ar)
        res.trail = self.trail
        left = [p for p in self.procs.values()
                if p['slot'] and not p['reaped']]
        if left:
            raise Violation('worker-left', 'the command ended without '
                            'waiting for %s' % ', '.join(
                                '%s (%s)' % (p['name'], p['state'])
                                for p in left))
        if not os.WIFEXITED(st):
            raise Violation('process-crash', 'the command ended with wait '
                            'status %d' % st)
        status = os.WEXITSTATUS(st)
        if status in (98, 99):
            raise RuntimeError('the command process failed')
        return status, self.failures

    def listen(self, p):
        """Read what a process says up to its next request or its end."""
        m = take(self.pipes[p['slot']].ar)
        if m is None:
            p['state'] = 'ended'
            p['ask'] = None
            return
        p['state'] = 'asks'
        p['ask'] = m

    def grant(self, p, *g):
        put(self.pipes[p['slot']].gw, g[:1] + (CLOCK.now,) + g[1:])
        self.listen(p)

    def drive(self, plan):
        procs = self.procs
        cmd = procs[0]
        self.listen(cmd)
        sched = list(plan['sched'])
        left = sched[0][0] if sched else -1
        reap = list(plan['reap'])
        faults = [list(f) for f in plan['faults']]
        cur = cmd
        steps = 0
        switches = 0
        while cmd['state'] != 'ended':
            steps += 1
            if steps > MAX_STEPS:
                raise Violation('never-ends', 'more than %d requests'
                                % MAX_STEPS)
            ready = [p for p in procs.values()
                     if p['state'] == 'asks' and self.can(p)]
            if left == 0:
                pick = sched.pop(0)[1]
                left = sched[0][0] if sched else -1
                others = [p for p in ready if p is not cur]
                if others:
                    cur = others[pick % len(others)]
                    switches += 1
            if self.polled:
                self.polled = False
                ready = [p for p in ready if p is not cmd] or ready
            if cur not in ready:
                nxt = [p for p in ready if p['slot'] > cur['slot']] or ready
                cur = nxt[0]
            left -= 1
            what = cur['ask']
            self.trail.append((cur['name'], ' '.join(map(str, what[:2]))))
            if cur['slot']:
                self.step_worker(cur, what, faults)
            else:
                self.step_command(cur, what, faults, reap)
        if switches:
            self.res.fault('process-switch', switches)
        if switches and self.forks > 1:
            self.res.nontrivial = True

    def can(self, p):
        """Could the process's request return now?"""
        a = p['ask']
        if a[0] != 'wait' or a[2] & os.WNOHANG:
            return True
        kids = self.kids(a[1])
        return not kids or any(k['state'] == 'ended' for k in kids)

    def kids(self, slot):
        return [k for k in self.procs.values() if k['slot']
                and not k['reaped'] and slot in (-1, k['slot'])]

    def step_worker(self, p, what, faults):
        n = p['slot'] - 1
        for f in faults:
            if f[0] == 'kill' and f[1] == n and (
                    f[2] == p['requests'] or f[2] == -1
                    and what[0] == 'end'):
                faults.remove(f)
                os.kill(p['pid'], getattr(signal, f[3]))
                self.res.fault('worker-' + f[3].lower())
                self.res.log('kill %s at %s' % (p['name'], what[:2]))
                self.failures.append('%s was killed by %s at %s'
                                     % (p['name'], f[3], what[:2]))
                self.listen(p)
                if p['state'] != 'ended':
                    raise RuntimeError('a killed worker speaks')
                return
        p['requests'] += 1
        self.res.log('%s %s' % (p['name'], ' '.join(map(str, what[:2]))))
        if what[0] == 'end':
            status, hits, fired, err = what[1:]
            for k, v in fired.items():
                self.res.fault('disk-' + k, v)
            hard = [h for h in hits if h[2] != 'short']
            # another worker may make the directory this one could not
            if any(h[0] not in MENDED + ('mkdir',) for h in hard) \
                    or hard and status:
                self.failures.append('%s met %s' % (p['name'], hard))
            if status:
                self.stderr += err
        elif what[0] in ('fork', 'wait'):
            raise Violation('worker-forks', '%s does the work of the '
                            'command: %s' % (p['name'], what[0]))
        self.grant(p, 'go')

    def step_command(self, p, what, faults, reap):
        procs = self.procs
        self.res.log('command ' + ' '.join(map(str, what[:2])))
        if what[0] == 'fork':
            n = self.forks
            self.forks += 1
            for f in faults:
                if f[0] == 'fork' and f[1] == n:
                    faults.remove(f)
                    self.res.fault('fork-failure')
                    self.failures.append('worker %d could not be started'
                                         % n)
                    self.grant(p, 'fail')
                    return
            alive = [k for k in procs.values()
                     if k['slot'] and k['state'] != 'ended']
            if len(alive) >= self.limit:
                raise Violation('too-many-workers', '%d workers are running '
                                'and another is started; the limit is %d'
                                % (len(alive), self.limit))
            slot = len(procs)
            if slot >= SLOTS:
                raise Violation('too-many-workers', 'more workers than '
                                'sources were started')
            mine = [(f[2], f[3]) for f in faults
                    if f[0] == 'disk' and f[1] == slot - 1]
            w = dict(slot=slot, state='running', name='worker %d'
                     % (slot - 1), requests=0, reaped=False)
            procs[slot] = w
            put(self.pipes[0].gw, ('slot', CLOCK.now, slot, mine))
            self.listen(w)
            w['pid'] = w['ask'][2]
            self.listen(p)
        elif what[0] == 'wait':
            kids = self.kids(what[1])
            ended = [k for k in kids if k['state'] == 'ended']
            if not kids:
                self.grant(p, 'echild')
            elif not ended:
                # polling: the others get their turn
                self.polled = True
                self.grant(p, 'none')
            else:
                k = ended[(reap.pop(0) if reap else 0) % len(ended)]
                k['reaped'] = True
                self.res.log('wait gives %s' % k['name'])
                self.grant(p, 'slot', k['slot'])
        else:
            if what[0] == 'end':
                self.stderr += what[4]
            self.grant(p, 'go')


PROP = C08()
