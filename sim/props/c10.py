"""C10: loading one template from several threads or processes is safe."""
import os
import pickle
import re
import select
import sys

from .. import rig, sched
from ..clock import CLOCK
from ..engine import Prop, Violation
from ..fs import CRASH_EXIT, FS, _real
from .c09 import (NAMES, name_of, namespace, output, rel_of, source,
                  vary_places)

SLOW = ('Parser.py', 'Compiler.py', 'SourceReader.py', 'SettingsManager.py')


def coarse(fn, name):
    return os.path.basename(fn) not in SLOW


class C10(Prop):
    id = 'C10'
    quick_runs = 7000
    thorough_runs = 150000
    quick_cap = 70
    pure_share = False
    rule = ('a seed makes one to three templates (some extending another one '
            'that has been loaded before) and two to four threads of one '
            'process, or two to four processes, each with a list of loads by '
            'path, and a schedule: threads are switched at lines of Cheetah '
            'and of generated modules, at locks and at file operations; '
            'processes before every file operation. Some processes die in '
            'the middle of a load. The saved forms are at first absent, '
            'present, or partly present. Non-trivial: two loads of the same '
            'directory overlapped.')
    measure = ('distinct scheduling trails: who was switched out where, in '
               'favour of whom')
    real = ['LoadTemplate, ImportHooks, ImportManager.DirOwner, Compiler, '
            'Parser, generated modules, py_compile, real files; processes '
            'are real and run in turns']
    stubbed = ['thread scheduler and locks', 'process scheduler: a process '
               'waits for its turn before each file operation',
               'clock and file times']
    assumptions = ['a file operation is atomic for other processes (POSIX '
                   'rename, and single writes)', 'no switches inside '
                   'importlib or C code']

    def gen(self, rng, tier):
        tm = []
        n = rng.choice([1, 1, 2, 3])
        for i in range(n):
            body = []
            for _ in range(rng.randrange(1, 4)):
                k = rng.choice(['t', 't', 'v', 'for', 'set', 'u'])
                body.append([k, rng.randrange(1, 6) if k == 'for'
                             else rng.randrange(1, 200)])
            t = dict(body=body, rep=rng.choice([1, 1, 1, 1, 20]), base=None,
                     enc=rng.random() < 0.4)
            if i and rng.random() < 0.5:
                t['base'] = NAMES[rng.randrange(i)]
            tm.append(t)
        where = vary_places(rng, tm)
        mode = rng.choice(['threads', 'procs'])
        procs = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops.append({'t': rng.randrange(n),
                            'form': rng.choice(['abs', 'ext', 'slashes',
                                                'abs']),
                            'what': rng.choice(['class', 'module'])})
            p = {'ops': ops}
            if mode == 'procs' and rng.random() < 0.2:
                p['die'] = [rng.randrange(1, 60),
                            rng.choice(['crash', 'crash_after', 'torn'])]
            procs.append(p)
        sch = []
        if mode == 'threads':
            for _ in range(rng.choice([2, 5, 12, 30])):
                sch.append([rng.choice([rng.randrange(1, 12),
                                        rng.randrange(1, 80),
                                        rng.randrange(1, 400)]),
                            rng.randrange(4)])
            if rng.random() < 0.3:
                sch.insert(0, [0, rng.randrange(4)])
        else:
            for _ in range(rng.choice([3, 10, 30, 60])):
                sch.append([rng.choice([1, 1, 2, rng.randrange(1, 12),
                                        rng.randrange(1, 40)]),
                            rng.randrange(4)])
        return {'tmpl': tm, 'dir': where, 'mode': mode, 'procs': procs, 'sched': sch,
                'pre': rng.choice(['none', 'none', 'py', 'all', 'oldpyc']),
                'tick': rng.choice([0, 0.0007, 0.11, 0.6]),
                'fine': rng.random() < 0.1}

    def repair(self, plan):
        if not plan['procs']:
            return None
        return plan

    def simplify(self, plan):
        import copy
        for i, t in enumerate(plan['tmpl']):
            for k, v in (('rep', 1), ('enc', False), ('base', None),
                         ('ext', '.tmpl')):
                if t.get(k, v) != v:
                    c = copy.deepcopy(plan)
                    c['tmpl'][i][k] = v
                    yield c
            if len(t['body']) > 1:
                c = copy.deepcopy(plan)
                c['tmpl'][i]['body'] = t['body'][:1]
                yield c
        if plan['pre'] != 'none':
            yield dict(copy.deepcopy(plan), pre='none')

    # ------------------------------------------------------------ running
    def run(self, plan, res, workdir):
        import traceback    # noqa: used by the code under test
        import Cheetah.LoadTemplate
        self.LT = Cheetah.LoadTemplate
        self.plan = plan
        self.dir = os.path.join(workdir, plan.get('dir', 'views'))
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, 'sub'))
        for i, t in enumerate(plan['tmpl']):
            path = os.path.join(self.dir, rel_of(plan, i))
            with open(path, 'wb') as f:
                f.write(source(t).encode('utf-8'))
            os.utime(path, (CLOCK.now, CLOCK.now))
        CLOCK.advance(3)
        # in a process that extends templates, they have been loaded before;
        # this also saves their compiled forms
        bases = set(t['base'] for t in plan['tmpl'] if t['base'])
        FS.begin(workdir, {})
        for i, t in enumerate(plan['tmpl']):
            if t['base']:
                bases.add(t['base'])
            if name_of(plan, i) in bases or plan['pre'] != 'none':
                self.load({'t': i, 'form': 'abs', 'what': 'class'})
        FS.end()
        for d, dirs, files in os.walk(self.dir):
            for f in files:
                p = os.path.join(d, f)
                if (plan['pre'] == 'none' and f.endswith(('.py', '.pyc'))
                        ) or (plan['pre'] == 'py' and f.endswith('.pyc')):
                    os.remove(p)
                elif plan['pre'] == 'oldpyc' and f.endswith('.pyc'):
                    os.utime(p, (CLOCK.now - 10, CLOCK.now - 10))
        CLOCK.advance(3)
        if plan['mode'] == 'threads':
            self.threads(plan, res)
        else:
            self.processes(plan, res)
        # and once more, alone
        for i in range(len(plan['tmpl'])):
            op = {'t': i, 'form': 'abs', 'what': 'class'}
            self.judge('afterwards', 0, op, self.outcome(op), res)

    def load(self, op):
        name = name_of(self.plan, op['t'])
        p = rel_of(self.plan, op['t'], op['form'] == 'ext'
                   or 'ext' in self.plan['tmpl'][op['t']])
        if op['form'] == 'slashes':
            p = self.dir + '//' + p
        else:
            p = os.path.join(self.dir, p)
        if op['what'] == 'class':
            return self.LT.loadTemplateClass(p)
        return getattr(self.LT.loadTemplateModule(p), name)

    def outcome(self, op):
        try:
            cls = self.load(op)
            return ('ok', re.sub('0x[0-9a-f]+', '0x#', str(
                cls(searchList=[namespace()]))), cls.__name__)
        except (sched.Deadlock, sched.StepLimit):
            raise
        except Exception as e:
            return ('exc', '%s: %s' % (type(e).__name__, rig.brief(e)[-300:]))

    def judge(self, who, k, op, out, res):
        t = self.plan['tmpl'][op['t']]
        name = name_of(self.plan, op['t'])
        what = '%s, load %s of %s' % (who, k, rel_of(self.plan, op['t']))
        res.checks += 1
        res.log('%s -> %s' % (what, str(out)[:300]))
        if out[0] == 'exc':
            raise Violation('load-failed', '%s failed: %s' % (what, out[1]))
        if out[1] != output(t):
            raise Violation('wrong-output', '%s gave a class with output %r, '
                            'expected %r' % (what, out[1][:300],
                                             output(t)[:300]))
        if out[2] != name:
            raise Violation('wrong-class', '%s gave class %s'
                            % (what, out[2]))

    # ------------------------------------------------------------ threads
    def threads(self, plan, res):
        outs = []
        busy = set()
        overlap = []

        def body(n, spec):
            def fn(t):
                for k, op in enumerate(spec['ops']):
                    busy.add(n)
                    if len(busy) > 1:
                        overlap.append(1)
                    out = self.outcome(op)
                    busy.discard(n)
                    outs.append((n, k, op, out))
            return fn

        def on_point(op, path):
            CLOCK.advance(plan['tick'])
            if sched.SCHED is not None:
                sched.SCHED.point('fs')
        s = sched.Scheduler({'sched': plan['sched']},
                            trace_filter=None if plan['fine'] else coarse)
        for n, spec in enumerate(plan['procs']):
            s.spawn(body(n, spec))
        FS.begin(os.path.dirname(self.dir), {}, on_point=on_point)
        s.run()
        FS.end()
        res.trail = s.trail
        res.fault('preemption', s.switches)
        if s.deadlock:
            raise Violation('never-ends', s.deadlock)
        for t in s.threads:
            if t.exc is not None:
                raise t.exc
        for n, k, op, out in outs:
            self.judge('thread %d' % n, k, op, out, res)
        res.nontrivial = bool(overlap)

    # ------------------------------------------------------------ processes
    def processes(self, plan, res):
        """Each process asks for its turn before every file operation."""
        procs = []
        for n, spec in enumerate(plan['procs']):
            ar, aw = os.pipe()      # its requests
            gr, gw = os.pipe()      # our grants
            pid = os.fork()
            if pid == 0:
                for x in procs:
                    os.close(x['r'])
                    os.close(x['g'])
                os.close(ar)
                os.close(gw)
                self.child(spec, aw, gr)
                os._exit(0)
            os.close(aw)
            os.close(gr)
            procs.append({'pid': pid, 'r': ar, 'g': gw, 'n': n, 'outs': [],
                          'done': False, 'died': False, 'spec': spec})
        for p in procs:
            self.answer(p, res)
        live = [p for p in procs if not p['done']]
        cur = live[0] if live else None
        sch = list(plan['sched'])
        left = sch[0][0] if sch else -1
        trail = []
        switches = 0
        while live:
            if left == 0:
                pick = sch.pop(0)[1]
                left = sch[0][0] if sch else -1
                others = [p for p in live if p is not cur]
                if others:
                    new = others[pick % len(others)]
                    trail.append((cur['n'], cur['at'], new['n']))
                    switches += 1
                    cur = new
            left -= 1
            # the operation the process asked for now happens, up to its
            # next request
            CLOCK.advance(plan['tick'])
            _real['write'](cur['g'], pickle.dumps(CLOCK.now)[:64].ljust(64))
            self.answer(cur, res)
            if cur['done']:
                live.remove(cur)
                if live:
                    nxt = [p for p in live if p['n'] > cur['n']] or live
                    trail.append((cur['n'], 'end', nxt[0]['n']))
                    cur = nxt[0]
        res.trail = trail
        res.fault('process-switch', switches)
        for p in procs:
            os.close(p['r'])
            os.close(p['g'])
            status = os.waitpid(p['pid'], 0)[1]
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASH_EXIT:
                res.fault('process-death')
                p['died'] = True
            elif status:
                raise Violation('process-crash', 'process %d ended with '
                                'status %d' % (p['n'], status))
        for p in procs:
            for k, out in p['outs']:
                if out[0] == 'error':
                    raise RuntimeError(out[1])
                self.judge('process %d' % p['n'], k, p['spec']['ops'][k],
                           out, res)
            if not p['died'] and len(p['outs']) != len(p['spec']['ops']):
                raise RuntimeError('lost outcomes')
        res.nontrivial = switches > 0

    def answer(self, p, res):
        """Read the process's messages up to its next request or its end."""
        while True:
            head = self.read(p['r'], 4)
            if head is None:
                p['done'] = True
                return
            msg = pickle.loads(self.read(p['r'], int.from_bytes(head,
                                                                'big')))
            if msg[0] == 'turn':
                p['at'] = msg[1]
                return
            p['outs'].append(msg[1:])

    def read(self, fd, n):
        b = b''
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b

    def child(self, spec, aw, gr):
        def send(*m):
            d = pickle.dumps(m)
            d = len(d).to_bytes(4, 'big') + d
            while d:
                d = d[_real['write'](aw, d):]

        def on_point(op, path):
            send('turn', '%s %s' % (op, re.sub(r'\.\d+(\.\d+)?', '.#',
                                               path)))
            g = self.read(gr, 64)
            if g is None:
                os._exit(3)
            CLOCK.now = pickle.loads(g)
        try:
            FS.begin(os.path.dirname(self.dir), dict([spec['die']])
                     if spec.get('die') else {}, on_point=on_point)
            for k, op in enumerate(spec['ops']):
                out = self.outcome(op)
                send('out', k, out)
        except BaseException:
            import traceback
            FS.end()
            send('out', 0, ('error', traceback.format_exc()))


PROP = C10()
