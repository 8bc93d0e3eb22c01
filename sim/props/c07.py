"""C07: command-line compile and fill never lose or fake an output file."""
import io
import os
import pickle
import re

from .. import cli, sched
from ..clock import CLOCK
from ..engine import Prop, Violation
from ..fs import CRASH_EXIT, FS, _real

KINDS = ['crash', 'crash', 'crash_after', 'torn', 'torn', 'enospc', 'enospc',
         'eio', 'eacces', 'emfile', 'short']


MENDED = ('close', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'chmod',
          'utime', 'link')


class C07(Prop):
    id = 'C07'
    quick_runs = 10000
    thorough_runs = 150000
    quick_cap = 70
    rule = ('a seed makes a tree of one to four templates (some that do not '
            'compile or fail when filled), existing outputs and backups, the '
            'options of a compile or fill command (input and output '
            'directories, recursion, flat, no backups, extensions, encoding, '
            'stdout, data files) and faults: the process dies before, after '
            'or in the middle of its n-th file operation, the disk is full '
            'from there on, the operation fails or is short, or an interrupt '
            'arrives. Afterwards the command is run again without faults. '
            'Non-trivial: a fault fired or a bad source was met.')
    measure = 'distinct complete event logs (file operations, status, files)'
    real = ['CheetahWrapper, Template, Compiler, Parser, generated code, '
            'shutil, codecs, real files in a process of its own']
    stubbed = ['clock and file times', 'file faults', 'directory order',
               'the interpreter around main(): exit status and the flush of '
               'stdout']
    assumptions = ['process death, not power loss: what was written before '
                   'the death stays', 'looking up whether a file exists does '
                   'not fail', 'sources are distinct existing files and no '
                   'output is a source']

    def gen(self, rng, tier):
        plan = cli.gen_tree(rng, tier, rng.choice([1, 1, 2, 3, 4]))
        o = plan['opts']
        o['stdout'] = (o['cmd'] == 'fill' or o['encoding'] is not None) \
            and rng.random() < 0.12
        if rng.random() < 0.05:
            o.update(stdin=True, stdout=True, ns=None, recurse=False,
                     idir='', odir='', flat=False, iext=None)
            del plan['tmpl'][1:]
            t = plan['tmpl'][0]
            t['body'] = [p for p in t['body'] if p[0] in ('t', 'for')] \
                or [['t', 7]]
            t['enc'] = False
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            faults.append([rng.choice([rng.randrange(1, 14),
                                       rng.randrange(1, 30),
                                       rng.randrange(1, 50)]),
                           rng.choice(KINDS)])
            if faults[-1][1] in ('torn', 'enospc', 'short'):
                faults[-1][0] = 'w%d' % rng.randrange(1, 8)
            elif rng.random() < 0.3:
                faults[-1][0] = 'c%d' % rng.randrange(1, 7)
        plan['faults'] = faults
        if rng.random() < 0.12:
            plan['int'] = [rng.choice([rng.randrange(1, 60),
                                       rng.randrange(1, 1000),
                                       rng.randrange(1, 8000)]),
                           'KeyboardInterrupt']
        return plan

    def repair(self, plan):
        if plan['opts'].get('stdin'):
            t = plan['tmpl'][:1]
            if not t or any(p[0] not in ('t', 'for') for p in t[0]['body']):
                return None
            plan['opts']['stdout'] = True
        return plan if cli.distinct(plan) else None

    def simplify(self, plan):
        import copy
        for k, v in (('idir', ''), ('odir', ''), ('flat', False),
                     ('recurse', False), ('quiet', False), ('oext', None),
                     ('encoding', None), ('stdout', False), ('iext', None),
                     ('how', None), ('dirorder', 0)):
            if plan['opts'].get(k) not in (v, None):
                c = copy.deepcopy(plan)
                c['opts'][k] = v
                yield c
        for i, t in enumerate(plan['tmpl']):
            if len(plan['tmpl']) > 1 and i == len(plan['tmpl']) - 1:
                c = copy.deepcopy(plan)
                del c['tmpl'][i]
                yield c
            for k, v in (('rep', 1), ('dir', ''), ('bak', False),
                         ('oldsize', 1), ('body', [['t', 1]])):
                if t[k] != v:
                    c = copy.deepcopy(plan)
                    c['tmpl'][i][k] = v
                    if k == 'body':
                        c['tmpl'][i]['enc'] = False
                    yield c

    # ------------------------------------------------------------ running
    def run(self, plan, res, workdir):
        import Cheetah.CheetahWrapper    # noqa: before anything is hooked
        root = os.path.join(workdir, 'work')
        tree = cli.Tree(plan, root)
        tree.build()
        CLOCK.advance(5)
        before = tree.snapshot()
        status, hits, fired, intr = self.process(
            tree, plan['faults'], plan.get('int'), res)
        after = tree.snapshot()
        self.judge('first run', tree, before, after, status, hits, intr, res)
        hurt = bool(hits or intr or fired)
        if any(t['bad'] for t in plan['tmpl']):
            hurt = True
        # faults are over: the same command again
        CLOCK.advance(5)
        again, hits, fired, intr = self.process(tree, [], None, res)
        self.judge('second run', tree, after, tree.snapshot(), again, [],
                   False, res)
        res.nontrivial = hurt

    def process(self, tree, faults, intr, res):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self.w = w
            try:
                self.child(tree, faults, intr)
            except BaseException:
                import traceback
                FS.end()
                self.send({'error': traceback.format_exc()})
            os._exit(0)
        os.close(w)
        data = b''
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
        os.close(r)
        status = os.waitpid(pid, 0)[1]
        if not data:
            raise Violation('process-crash', 'the command ended with wait '
                            'status %d' % status)
        m = pickle.loads(data)
        if 'error' in m:
            raise RuntimeError(m['error'])
        for e in m['events']:
            res.log(e)
        for k, v in m['fired'].items():
            res.fault('disk-' + k, v)
        if m['int']:
            res.fault('interrupt')
        st = 'died' if m.get('died') else m['status']
        res.log('status %s' % st)
        self.stdout = m.get('stdout')
        return st, m['hits'], m['fired'], m['int']

    def send(self, m):
        d = pickle.dumps(m)
        while d:
            d = d[_real['write'](self.w, d):]

    def child(self, tree, faults, intr):
        os.chdir(tree.root)
        events = []
        cli.order_directories(tree.o['dirorder'])
        FS.count_lookups = False
        FS.begin(tree.root, dict(map(tuple, faults)),
                 on_point=self.on_point if intr else None,
                 log=lambda s: events.append(s))

        def die():
            FS.active = False
            self.send({'died': 1, 'events': events, 'fired': FS.fired,
                       'hits': FS.hits, 'int': 0})
            os._exit(CRASH_EXIT)
        FS.crash = die
        path = os.path.join(os.path.dirname(tree.root), 'stdout')
        if tree.o.get('stdout'):
            # stdout is a file on the same disk
            path = os.path.join(tree.root, 'stdout')
            real, FS.faults = FS.faults, {}
            out = open(path, 'w')
            FS.faults, FS.count = real, 0
        else:
            out = io.StringIO()
        fired = 0
        stdin = None
        if tree.o.get('stdin'):
            stdin = io.StringIO(tree.source(0).decode('utf-8'))
        if intr:
            s = sched.Scheduler({'interrupts': [[0] + list(intr)]})
            th = s.spawn(lambda t: cli.run_command(tree.argv(), out, stdin))
            s.run()
            status = 130 if th.exc is not None else th.result
            fired = s.fired_interrupts
        else:
            status = cli.run_command(tree.argv(), out, stdin)
        FS.active = False
        m = {'status': status, 'events': events, 'fired': FS.fired,
             'hits': FS.hits, 'int': fired}
        if tree.o.get('stdout'):
            with open(path, 'rb') as f:
                m['stdout'] = f.read()
            os.remove(path)
        self.send(m)
        os._exit(0)

    def on_point(self, op, path):
        if sched.SCHED is not None:
            sched.SCHED.point('fs')

    # ------------------------------------------------------------ judging
    def judge(self, what, tree, before, after, status, hits, intr, res):
        o = tree.o
        excused = bool(hits) or intr
        # a short write is carried on with; a file that was only read may
        # be closed with an error nobody needs to hear of
        # and a failing move may have been made up for by other means
        hits = [h for h in hits if h[2] != 'short' and h[0] not in MENDED]
        bad = [i for i, t in enumerate(tree.tmpl) if t['bad']]
        if tree.collides():
            # nothing may happen at all
            res.probe('collision')
            bad = [0]
            for k in sorted(set(before) | set(after)):
                # standard output starts empty with each run
                if after.get(k) != before.get(k) and (
                        k != 'stdout' or after.get(k)):
                    raise Violation('collision', '%s: two sources have the '
                                    'same output, and %s was changed'
                                    % (what, k))
        res.checks += 1
        for k in sorted(after):
            res.log('%s %d' % (k, len(after[k])))
        for i in range(len(tree.tmpl)):
            s = tree.src(i)
            if after.get(s) != tree.source(i):
                raise Violation('source-changed', '%s: source %s was %r and '
                                'is %r' % (what, s, tree.source(i)[:100],
                                           (after.get(s) or b'')[:100]))
        if status == 0:
            if bad:
                raise Violation('failure-not-reported', '%s: exit status 0 '
                                'although source %s is bad'
                                % (what, tree.src(bad[0])))
            if hits:
                raise Violation('failure-not-reported', '%s: exit status 0 '
                                'although %s' % (what, hits))
            if intr:
                raise Violation('failure-not-reported', '%s: exit status 0 '
                                'although interrupted' % what)
            self.outputs(what, tree, after)
        elif status != 'died' and not bad and not excused:
            raise Violation('unexpected-failure', '%s: exit status %s '
                            'without any failure' % (what, status))
        for i, t in enumerate(tree.tmpl):
            dst, bak = tree.dst(i), tree.bak(i)
            if t['bad'] or o.get('stdout') and t['bad']:
                for p in (dst, bak):
                    if after.get(p) != before.get(p):
                        raise Violation(
                            'output-touched', '%s: %s, whose source is bad, '
                            'was %r and is %r' % (
                                what, p, (before.get(p) or b'')[:100],
                                (after.get(p) or b'')[:100]))
            old = before.get(dst)
            if old is None:
                continue
            if o.get('stdout'):
                if after.get(dst) != old:
                    raise Violation('output-touched', '%s: %s was changed by '
                                    'a run to stdout' % (what, dst))
                continue
            if o['nobackup']:
                if after.get(bak) != before.get(bak):
                    raise Violation('output-touched', '%s: backup %s was '
                                    'changed with backups off' % (what, bak))
                continue
            if old not in (after.get(dst), after.get(bak)):
                raise Violation(
                    'output-lost', '%s (status %s): the previous content %r '
                    'of %s is gone: now %r, backup %r'
                    % (what, status, old[:60], dst,
                       (after.get(dst) or b'')[:60],
                       (after.get(bak) or b'')[:60]))
            if status == 0 and not t['bad'] and after.get(bak) != old:
                raise Violation('no-backup', '%s: the backup of %s is not '
                                'its previous content' % (what, dst))

    def outputs(self, what, tree, after):
        if tree.o.get('stdout'):
            got = self.stdout
            if tree.o.get('stdin') and tree.o['cmd'] == 'compile':
                try:
                    ns = {'__name__': 'from_stdin'}
                    exec(compile(got, 'stdout', 'exec'), ns)
                    c = [v for v in ns.values() if isinstance(v, type)
                         and v.__module__ == 'from_stdin'][0]
                    text = str(c(searchList=[cli.namespace()]))
                except Exception as e:
                    raise Violation('incomplete-output', '%s: exit status 0 '
                                    'but stdout is a module that fails: %r'
                                    % (what, e))
                if text != cli.output(tree.tmpl[0]):
                    raise Violation('incomplete-output', '%s: exit status 0 '
                                    'but the module on stdout gives %r'
                                    % (what, text[:200]))
                return
            if tree.o['cmd'] == 'fill':
                n = 0
                for i in range(len(tree.tmpl)):
                    want = cli.output(tree.tmpl[i]).encode('utf-8')
                    n += len(want)
                    if want not in got:
                        raise Violation('incomplete-output', '%s: exit '
                                        'status 0 but the text of %s is not '
                                        'in %r' % (what, tree.src(i),
                                                   got[:300]))
                if n != len(got):
                    raise Violation('incomplete-output', '%s: exit status 0 '
                                    'but stdout has %d bytes, expected %d'
                                    % (what, len(got), n))
            return
        for i in range(len(tree.tmpl)):
            w = tree.complete(i, after.get(tree.dst(i)))
            if w:
                raise Violation('incomplete-output', '%s: exit status 0 but '
                                '%s is %s' % (what, tree.dst(i), w))


PROP = C07()
