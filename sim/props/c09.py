"""C09: an interrupted template load never poisons later loads."""
import os
import pickle
import re
import sys

from .. import rig, sched
from ..clock import CLOCK
from ..engine import Prop, Violation
from ..fs import CRASH_EXIT, FS, _real

# sources that do not compile: the first group is refused by the parser, the
# second one gives Python code that is refused
BROKEN = ['#if $x\n', '${x(', '#set $y = (1 + ]\n', 'a #end if#',
          '#import 1x\n', '#def f(1)\nx\n#end def\n', '#silent if 1\n',
          '#attr $q = = 2\n']
NAMES = ['ta', 'tb', 'tc', 'td']
SAVING = ('create', 'write', 'flush-close', 'mkdir', 'rename', 'replace',
          'unlink', 'remove', 'chmod', 'link')
KINDS = ['crash', 'crash', 'crash_after', 'torn', 'torn', 'enospc', 'enospc',
         'eio', 'eacces', 'emfile', 'short']


def piece_source(p):
    k = p[0]
    if k == 't':
        return 'text%d\n' % p[1]
    if k == 'u':
        return u'\xe9\u20ac%d\n' % p[1]
    if k == 'v':
        return '$v%d;\n' % p[1]
    if k == 'for':
        return '#for $i in range(%d)\n[$i]\n#end for\n' % p[1]
    if k == 'def':
        return '#def m%d\nin def\n#end def\n<$m%d>\n' % (p[1], p[1])
    if k == 'set':
        return '#set $s%d = %d\n=$s%d\n' % (p[1], p[1], p[1])
    raise AssertionError(p)


def piece_output(p):
    k = p[0]
    if k == 't':
        return 'text%d\n' % p[1]
    if k == 'u':
        return u'\xe9\u20ac%d\n' % p[1]
    if k == 'v':
        return 'V%d;\n' % p[1]
    if k == 'for':
        return ''.join('[%d]\n' % i for i in range(p[1]))
    if k == 'def':
        return '<in def\n>\n'
    return '=%d\n' % p[1]


def namespace():
    return dict(('v%d' % i, 'V%d' % i) for i in range(200))


def source(t):
    out = []
    if t.get('enc'):
        out.append('#encoding utf-8\n')
    if t['base'] is not None:
        out.append('#extends %s\n#implements respond\n' % t['base'])
    for _ in range(t['rep']):
        out += [piece_source(p) for p in t['body']]
    return ''.join(out)


def output(t):
    return ''.join(piece_output(p) for p in t['body']) * t['rep']


def name_of(plan, i):
    return NAMES[plan['tmpl'][i].get('nm', i)]


def rel_of(plan, i, ext=True):
    """Path of a template below the template directory."""
    t = plan['tmpl'][i]
    return os.path.join('sub' if t.get('sub') else '', name_of(plan, i)
                        + (t.get('ext', '.tmpl') if ext else ''))


def vary_places(rng, tm):
    """Other file extensions, or the same name in two directories; returns
    the name of the template directory."""
    bases = set(t['base'] for t in tm)
    if len(tm) > 1 and rng.random() < 0.15:
        for i, t in enumerate(tm):
            t.update(base=None, nm=i // 2, sub=i % 2)
    else:
        for i, t in enumerate(tm):
            if NAMES[i] not in bases and rng.random() < 0.2:
                t['ext'] = rng.choice(['.txt', '.tm', '.html'])
    return rng.choice(['views', 'views', 'views', 'v.1'])


class C09(Prop):
    id = 'C09'
    quick_runs = 4500
    thorough_runs = 150000
    quick_cap = 70
    pure_share = False
    rule = ('a seed makes two to four templates (some extending another, '
            'some at first broken and corrected later, some with another '
            'extension or the same name in another directory, small or '
            'several '
            'buffers long, some not ASCII), and two to five processes, each '
            'with a list of loads by path, by import hook (at top level or '
            'from a package) or with a cache directory, and a fault at some of its file operations (death '
            'before, after or in the middle of the operation, full disk, '
            'failing or short operation) or an interrupt at some function '
            'entry or file operation; the last process has no faults. '
            'Non-trivial: a fault or interrupt fired, or a broken template '
            'was refused, and a later load was compared.')
    measure = 'distinct complete event logs (file operations and outcomes)'
    real = ['LoadTemplate, ImportHooks, ImportManager, Compiler, Parser, '
            'generated modules, py_compile, real files, real processes '
            'started one after another']
    stubbed = ['clock and file times', 'file faults', 'locks', 'scheduler '
               'that places interrupts']
    assumptions = ['process death, not power loss: what was written before '
                   'the death stays', 'the source of a template that has '
                   'been loaded is not edited (an existing compiled form is '
                   'documented to be used first)',
                   'looking up the template directory itself does not fail',
                   'interrupts arrive on function entry or at a file '
                   'operation']

    # ------------------------------------------------------------ plans
    def gen(self, rng, tier):
        tm = []
        n = rng.choice([1, 2, 2, 3])
        for i in range(n):
            body = []
            for _ in range(rng.randrange(1, 5)):
                k = rng.choice(['t', 't', 'v', 'for', 'set', 'u', 'def'])
                body.append([k, rng.randrange(1, 6) if k == 'for'
                             else rng.randrange(1, 200)])
                if k == 'def':
                    body[-1][1] = len(body)
            rep = rng.choice([1, 1, 1, 1, 4, 25])
            if any(p[0] == 'def' for p in body):
                rep = 1
            t = dict(body=body, rep=rep, base=None, broken=[],
                     enc=rng.random() < 0.4)
            if i and rng.random() < 0.4:
                t['base'] = NAMES[rng.randrange(i)]
            if rng.random() < 0.3:
                t['broken'] = [rng.randrange(len(BROKEN))
                               for _ in range(rng.choice([1, 1, 2]))]
            tm.append(t)
        where = vary_places(rng, tm)
        same = any('sub' in t for t in tm)
        package = where == 'views' and rng.random() < 0.5
        procs = []
        nproc = rng.randrange(2, 5 if tier == 'quick' else 8)
        for _ in range(nproc):
            ops = []
            for _ in range(rng.randrange(1, 5)):
                x = rng.random()
                if x < 0.2:
                    ops.append({'op': 'repair', 't': rng.randrange(n)})
                    continue
                op = {'op': rng.choice(['path', 'path', 'import']),
                      't': rng.randrange(n)}
                if same or 'ext' in tm[op['t']]:
                    op['op'] = 'path'
                if op['op'] == 'import' and package:
                    op['pkg'] = rng.choice([None, 'dot', 'from'])
                if op['op'] == 'path':
                    op['form'] = rng.choice(['abs', 'rel', 'ext', 'relext',
                                             'slashes'])
                    op['what'] = rng.choice(['class', 'module'])
                if rng.random() < 0.15:
                    op['int'] = [rng.choice([rng.randrange(1, 30),
                                             rng.randrange(1, 300),
                                             rng.randrange(1, 3000)]),
                                 rng.choice(['KeyboardInterrupt',
                                             'SystemExit'])]
                ops.append(op)
            faults = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                faults.append([rng.choice([rng.randrange(1, 25),
                                           rng.randrange(1, 60),
                                           rng.randrange(1, 160)]),
                               rng.choice(KINDS)])
            procs.append({'ops': ops, 'faults': faults,
                          'cache': rng.random() < 0.15,
                          'stat': rng.random() < 0.3,
                          'dt': rng.choice([0, 0.003, 0.4, 1.0, 7.5, -3.0]),
                          'tick': rng.choice([0, 0.0007, 0.11, 0.6])})
        return {'tmpl': tm, 'procs': procs, 'dir': where,
                'package': package,
                'last': {'cache': rng.random() < 0.15,
                         'hook': not same and rng.random() < 0.5,
                         'rev': rng.random() < 0.5}}

    def repair(self, plan):
        if not plan['procs']:
            return None
        return plan

    def simplify(self, plan):
        import copy
        for i, t in enumerate(plan['tmpl']):
            for k, v in (('rep', 1), ('enc', False), ('base', None),
                         ('broken', []), ('ext', '.tmpl')):
                if t.get(k, v) != v:
                    c = copy.deepcopy(plan)
                    c['tmpl'][i][k] = v
                    yield c
            if len(t['body']) > 1:
                c = copy.deepcopy(plan)
                c['tmpl'][i]['body'] = t['body'][:1]
                yield c

    # ------------------------------------------------------------ running
    def write(self, i):
        t = self.plan['tmpl'][i]
        k = self.stage[i]
        s = BROKEN[t['broken'][k]] if k < len(t['broken']) else source(t)
        path = os.path.join(self.dir, rel_of(self.plan, i))
        with open(path + '.new', 'wb') as f:
            f.write(s.encode('utf-8'))
        ns = int(CLOCK.now * 1e9)
        os.utime(path + '.new', ns=(ns, ns))
        os.rename(path + '.new', path)

    def good(self, i):
        return self.stage[i] >= len(self.plan['tmpl'][i]['broken'])

    def run(self, plan, res, workdir):
        self.plan = plan
        self.dir = os.path.join(workdir, plan.get('dir', 'views'))
        self.cachedir = os.path.join(workdir, 'cache')
        os.mkdir(self.dir)
        os.mkdir(self.cachedir)
        os.mkdir(os.path.join(self.dir, 'sub'))
        if plan.get('package'):
            with open(os.path.join(self.dir, '__init__.py'), 'w') as f:
                f.write('# a package\n')
        self.stage = [0] * len(plan['tmpl'])
        for i in range(len(plan['tmpl'])):
            self.write(i)
        self.compared = self.hurt = False
        for n, proc in enumerate(plan['procs']):
            CLOCK.advance(proc['dt'])
            self.process(n, proc, res)
        CLOCK.advance(1.7)
        # corrected, and no more faults: everything must load
        for i in range(len(plan['tmpl'])):
            while not self.good(i):
                self.stage[i] += 1
                self.write(i)
        order = list(range(len(plan['tmpl'])))
        last = plan['last']
        if last['rev'] and last['hook']:
            order.reverse()
        ops = [{'op': 'import' if last['hook']
                and 'ext' not in plan['tmpl'][i] else 'path', 't': i,
                'form': 'abs', 'what': 'class'} for i in order]
        ops += [{'op': 'path', 't': i, 'form': 'ext', 'what': 'module'}
                for i in order]
        self.process('last', {'ops': ops, 'faults': [], 'stat': False,
                              'cache': last['cache'], 'tick': 0.01}, res)
        for i, t in enumerate(plan['tmpl']):
            with open(os.path.join(self.dir, rel_of(plan, i)), 'rb') as f:
                if f.read() != source(t).encode('utf-8'):
                    raise Violation('source-changed', 'the source of %s was '
                                    'changed by the loads' % rel_of(plan, i))
        res.nontrivial = self.hurt and self.compared

    def process(self, n, proc, res):
        r, self.w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                self.child(proc)
            except BaseException:
                import traceback
                FS.end()
                self.send({'error': traceback.format_exc()})
            os._exit(0)
        os.close(self.w)
        data = b''
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
        os.close(r)
        status = os.waitpid(pid, 0)[1]
        res.log('process %s' % n)
        pos = 0
        while pos < len(data):
            ln = int.from_bytes(data[pos:pos + 4], 'big')
            self.judge(n, pickle.loads(data[pos + 4:pos + 4 + ln]), res)
            pos += 4 + ln
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASH_EXIT:
            res.log('process %s died' % n)
            self.hurt = True
        elif status != 0:
            raise Violation('process-crash', 'process %s ended with status '
                            '%d' % (n, status))

    def send(self, obj):
        obj['now'] = CLOCK.now
        data = pickle.dumps(obj)
        data = len(data).to_bytes(4, 'big') + data
        while data:
            k = _real['write'](self.w, data)
            data = data[k:]

    # ------------------------------------------------------------ child
    def child(self, proc):
        import traceback    # noqa: before the import hook is installed
        import Cheetah.ImportHooks
        import Cheetah.LoadTemplate
        self.IH, self.LT = Cheetah.ImportHooks, Cheetah.LoadTemplate
        os.chdir(self.dir)
        if proc['cache']:
            self.IH.setCacheDir(self.cachedir)
        self.tick = proc['tick']
        self.hooked = False
        self.loaded = set()
        self.events = []
        FS.begin(os.path.dirname(self.dir), dict(map(tuple, proc['faults'])),
                 on_point=self.on_point, log=self.note)
        FS.stat_faults = proc['stat']
        FS.stat_safe = (os.path.basename(self.dir), 'sub')
        FS.crash = self.die
        for k, op in enumerate(proc['ops']):
            if op['op'] == 'repair':
                FS.active = False
                if not self.good(op['t']):
                    self.stage[op['t']] += 1
                    self.write(op['t'])
                self.send({'op': op, 'k': k})
                FS.active = True
                continue
            rec = self.load(k, op)
            FS.active = False
            self.send(rec)
            FS.active = True

    def die(self):
        FS.active = False
        self.send({'died': 1, 'events': self.events, 'fired': FS.fired})
        os._exit(CRASH_EXIT)

    def note(self, s):
        self.events.append(re.sub(r'\.\d+(\.\d+)?', '.#', s))

    def on_point(self, op, path):
        CLOCK.advance(self.tick)
        if sched.SCHED is not None:
            sched.SCHED.point('fs')

    def render(self, cls):
        return re.sub('0x[0-9a-f]+', '0x#',
                      str(cls(searchList=[namespace()])))

    def load(self, k, op):
        name = name_of(self.plan, op['t'])
        self.events = []
        FS.hits = []
        FS.fired = {}
        full = FS.full
        if op['op'] == 'import' and not self.hooked:
            self.hooked = True
            sys.path.insert(0, os.path.dirname(self.dir))
            sys.path.insert(0, self.dir)
            FS.active = False
            self.IH.install()
            FS.active = True

        def body(t):
            if op['op'] == 'import':
                if op.get('pkg') == 'dot':
                    mod = getattr(__import__('views.' + name), name)
                elif op.get('pkg'):
                    mod = getattr(__import__('views', {}, {}, [name]),
                                  name)
                else:
                    mod = __import__(name)
                return getattr(mod, name)
            p = rel_of(self.plan, op['t'], 'ext' in op['form']
                       or 'ext' in self.plan['tmpl'][op['t']])
            if op['form'] in ('abs', 'ext'):
                p = os.path.join(self.dir, p)
            elif op['form'] == 'slashes':
                p = self.dir + '//' + p
            if op['what'] == 'class':
                return self.LT.loadTemplateClass(p)
            return getattr(self.LT.loadTemplateModule(p), name)
        plan = {}
        if op.get('int'):
            plan['interrupts'] = [[0, op['int'][0], op['int'][1]]]
        s = sched.Scheduler(plan, trace=bool(op.get('int')))
        th = s.spawn(body)
        s.run()
        rec = {'op': op, 'k': k, 'hits': list(FS.hits), 'full': full,
               'fired': dict(FS.fired), 'int': s.fired_interrupts,
               'loaded': sorted(self.loaded), 'hooked': self.hooked}
        FS.active = False
        e = th.exc
        if e is None:
            try:
                rec['out'] = ('ok', self.render(th.result),
                              th.result.__name__)
                self.loaded.add(name)
            except Exception as x:
                rec['out'] = ('bad-class', '%s: %s' % (type(x).__name__,
                                                       rig.brief(x)))
        elif isinstance(e, (sched.Deadlock, sched.StepLimit)):
            rec['out'] = ('stuck', str(e))
        else:
            rec['out'] = ('exc', type(e).__name__, isinstance(e, ImportError),
                          rig.brief(e)[-200:])
        rec['events'] = self.events
        FS.active = True
        return rec

    # ------------------------------------------------------------ judging
    def judge(self, n, rec, res):
        if 'error' in rec:
            raise RuntimeError(rec['error'])
        CLOCK.advance(rec['now'] - CLOCK.now)
        for e in rec.get('events', ()):
            res.log(e)
        for k, v in rec.get('fired', {}).items():
            res.fault('disk-' + k, v)
        if 'died' in rec:
            return
        op = rec['op']
        i = op['t']
        name = name_of(self.plan, i)
        if op['op'] == 'repair':
            if not self.good(i):
                self.stage[i] += 1
                res.log('edit of %s' % name)
            return
        t = self.plan['tmpl'][i]
        out = rec['out']
        what = 'process %s, load %d of %s by %s' % (n, rec['k'],
                                                    rel_of(self.plan, i),
                                                    op['op'])
        res.log('%s -> %s' % (what, str(out)[:400]))
        res.checks += 1
        hits = [h for h in rec['hits'] if h[2] != 'short']
        if rec['int']:
            res.fault('interrupt')
        if hits or rec['int']:
            self.hurt = True
        want = self.good(i) and self.needs(i, rec)
        if out[0] == 'stuck':
            raise Violation('never-ends', '%s: %s' % (what, out[1]))
        if out[0] == 'bad-class':
            raise Violation('unusable-class', '%s returned a class that '
                            'fails: %s' % (what, out[1]))
        if out[0] == 'ok':
            if not self.good(i):
                raise Violation('broken-source-loaded', '%s returned a class '
                                'although the source does not compile' % what)
            if out[1] != output(t):
                raise Violation('wrong-output', '%s gave a class with output '
                                '%r, expected %r' % (what, out[1][:300],
                                                     output(t)[:300]))
            if out[2] != name:
                raise Violation('wrong-class', '%s gave class %s'
                                % (what, out[2]))
            if self.hurt:
                self.compared = True
            return
        res.probe('load-raised')
        if rec['int']:
            return
        if not hits:
            if want:
                raise Violation('load-failed', '%s raised %s: %s'
                                % (what, out[1], out[3]))
            self.hurt = True
            if not out[2]:
                raise Violation('wrong-error', '%s, which cannot be '
                                'compiled, raised %s instead of an import '
                                'error: %s' % (what, out[1], out[3]))
            return
        if want and all(h[0] in SAVING for h in hits):
            raise Violation('save-failure-fails-load', '%s raised %s: %s, '
                            'but only saving failed: %s'
                            % (what, out[1], out[3], hits))

    def needs(self, i, rec):
        b = self.plan['tmpl'][i]['base']
        if b is None or b in rec['loaded']:
            return True
        j = NAMES.index(b)
        return rec['hooked'] and self.good(j) and self.needs(j, rec)


PROP = C09()
