"""C15: a compiled template run as a program prints its fill or fails."""
import io
import json
import os
import pickle
import sys
import zlib

from .. import sched
from ..clock import CLOCK
from ..engine import Prop, Violation
from ..fs import CRASH_EXIT, FS
from .c07 import C07, KINDS

NAMES = ['zz_a', 'zz_b', 'zz_c', 'zz_d']
VALUES = ['one', 'two words', u'eur \u20ac', '', 7, 0, 2.5, None, True,
          {'k': 'inner', 'l': 3}, {'k': {'k': 'deep'}}, {}, [1, 2],
          '<$zz_a>', 'line\nbreak', 'long ' * 700]
MARK = '(begin)'
MISSING = object()


class C15(Prop):
    id = 'C15'
    quick_runs = 14000
    thorough_runs = 150000
    quick_cap = 60
    rule = ('a seed makes a template, compiles it to a module and runs the '
            'module as a program with up to three data sources (environment, '
            'pickle or JSON from a file or from standard input, some '
            'missing, cut short or damaged) while file operations on data '
            'and standard output fail, are short, fill the disk or kill the '
            'process, or an interrupt arrives; then once more without '
            'faults. Non-trivial: a fault fired, a source was damaged, the '
            'template failed or two sources had the same name.')
    measure = 'distinct complete event logs (file operations, status, output)'
    real = ['generated module footer, TemplateCmdLineIface, Template, '
            'generated code, pickle, json, real files in a process of its '
            'own']
    stubbed = ['file faults', 'the interpreter around the program: exit '
               'status and the flush of stdout']
    assumptions = ['standard output and the data are files']

    def gen(self, rng, tier):
        names = NAMES[:rng.choice([2, 3, 4])]
        plan = {'body': [], 'attrs': [], 'globals': [], 'srcs': [],
                'opt': None, 'via': rng.choice(['module', 'module', 'call']),
                'enc': rng.choice(['utf-8', 'utf-8', 'utf-8', 'ascii']),
                'rep': rng.choice([1, 1, 1, 1, 20, 400])}
        for n in names:
            if rng.random() < 0.5:
                plan['attrs'].append([n, 'attr of ' + n])
            if rng.random() < 0.2:
                plan['globals'].append([n, 'global ' + n])
        for _ in range(rng.randrange(1, 7)):
            n = rng.choice(names)
            plan['body'].append(rng.choice([
                ['t', rng.randrange(100)], ['v', n], ['v', n], ['v', n],
                ['m', n], ['d', n, 'k'], ['d', n, 'l'],
                ['if', n], ['get', n], ['u', 1]]))
            if plan['body'][-1][0] == 'd' and rng.random() < 0.6:
                plan['body'][-1] = ['has', n, 'k']
        if rng.random() < 0.06:
            plan['body'].append(['fail', rng.randrange(3)])
        stdin = False
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            kind = rng.choice(['env', 'pickle', 'json', 'pickle', 'json'])
            d = {}
            for n in names:
                if rng.random() < 0.7:
                    d[n] = rng.choice(VALUES)
                    if kind == 'env':
                        d[n] = str(d[n])
            s = {'kind': kind, 'data': d, 'stdin': False, 'bad': None}
            if kind != 'env':
                if not stdin and rng.random() < 0.25:
                    s['stdin'] = stdin = True
                if rng.random() < 0.12:
                    s['bad'] = rng.choice(['cut', 'junk', 'empty']
                                          + ['missing'] * (not s['stdin']))
            elif any(x['kind'] == 'env' for x in plan['srcs']):
                continue
            plan['srcs'].append(s)
        if rng.random() < 0.06:
            plan['opt'] = rng.choice(['--help', '-h', '--bogus', '-x',
                                      '--pickle', '--json'])
        plan['faults'] = []
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
            k = rng.choice(KINDS)
            n = rng.choice([rng.randrange(1, 5), rng.randrange(1, 14)])
            if k in ('torn', 'enospc') or k == 'short' and \
                    rng.random() < 0.5:
                n = 'w%d' % rng.randrange(1, 4)
            plan['faults'].append([n, k])
        if rng.random() < 0.1:
            plan['int'] = [rng.choice([rng.randrange(1, 60),
                                       rng.randrange(1, 1500)]),
                           'KeyboardInterrupt']
        return plan

    def simplify(self, plan):
        import copy
        for k, v in (('attrs', []), ('globals', []), ('rep', 1),
                     ('via', 'module'), ('enc', 'utf-8')):
            if plan[k] != v:
                c = copy.deepcopy(plan)
                c[k] = v
                yield c
        for i, s in enumerate(plan['srcs']):
            c = copy.deepcopy(plan)
            del c['srcs'][i]
            yield c
            for n in sorted(s['data']):
                c = copy.deepcopy(plan)
                del c['srcs'][i]['data'][n]
                yield c

    # ---------------------------------------------------- template, oracle
    def source(self, plan):
        out, defs = [], []
        if ['u', 1] in plan['body']:
            defs.append('#encoding utf-8\n')
        for n, v in plan['attrs']:
            defs.append("#attr $%s = '%s'\n" % (n, v))
        for p in plan['body']:
            if p[0] == 'm':
                d = '#def m_%s\n<$%s>\n#end def\n' % (p[1], p[1])
                if d not in defs:
                    defs.append(d)
        out.append(MARK + '\n')
        for n, v in plan['globals']:
            out.append("#set global $%s = '%s'\n" % (n, v))
        out.append('#for $zi in range(%d)\n' % plan['rep'])
        for p in plan['body']:
            k = p[0]
            if k == 't':
                out.append('text %d\n' % p[1])
            elif k == 'u':
                out.append(u'caf\u00e9\n')
            elif k == 'v':
                out.append('$%s\n' % p[1])
            elif k == 'm':
                out.append('$m_%s()\n' % p[1])
            elif k == 'd':
                out.append('$%s.%s\n' % (p[1], p[2]))
            elif k == 'has':
                out.append("#if $varExists('%s.%s')\nyes $%s.%s\n#else\nno\n"
                           "#end if\n" % (p[1], p[2], p[1], p[2]))
            elif k == 'if':
                out.append("#if $varExists('%s')\nhas $%s\n#end if\n"
                           % (p[1], p[1]))
            elif k == 'get':
                out.append("$getVar('%s', 'none')\n" % p[1])
            elif k == 'fail':
                out.append(['#silent 1 // 0\n', '#raise ValueError("z")\n',
                            '$zz_nosuch\n'][p[1]])
        out.append('#end for\n')
        return ''.join(defs + out)

    def expect(self, plan):
        """The text, or None if the fill fails."""
        spaces = [s['data'] for s in reversed(plan['srcs'])]
        spaces += [dict(map(tuple, plan['globals'])),
                   dict(map(tuple, plan['attrs']))]

        def get(n, *path):
            for d in spaces:
                if n in d:
                    v = d[n]
                    break
            else:
                return MISSING
            for k in path:
                if not isinstance(v, dict) or k not in v:
                    return MISSING
                v = v[k]
            return v

        def show(v):
            return '' if v is None else '%s' % (v,)
        out = []
        for p in plan['body']:
            k = p[0]
            if k == 't':
                out.append('text %d\n' % p[1])
            elif k == 'u':
                out.append(u'caf\u00e9\n')
            elif k == 'fail':
                return None
            else:
                v = get(*p[1:])
                if k in ('v', 'm', 'd') and v is MISSING:
                    return None
                if k in ('v', 'd'):
                    out.append(show(v) + '\n')
                elif k == 'm':
                    out.append('<%s>\n\n' % show(v))
                elif k == 'has':
                    out.append('no\n' if v is MISSING
                               else 'yes %s\n' % show(v))
                elif k == 'if':
                    out.append('' if v is MISSING else 'has %s\n' % show(v))
                elif k == 'get':
                    out.append(('none' if v is MISSING else show(v)) + '\n')
        return MARK + '\n' + ''.join(out) * plan['rep'] + '\n'

    # ------------------------------------------------------------ running
    def run(self, plan, res, workdir):
        import Cheetah.Template as T    # noqa: before anything is hooked
        self.root = os.path.join(workdir, 'work')
        os.mkdir(self.root)
        text = T.Template.compile(
            source=self.source(plan), moduleName='prog', className='prog',
            returnAClass=False)
        self.code = compile(text, 'prog.py', 'exec')
        self.put_data(plan)
        damaged = [s for s in plan['srcs'] if s['bad']]
        CLOCK.advance(5)
        status, hits, fired, intr = self.process(
            plan, plan['faults'], plan.get('int'), res)
        self.judge('first run', plan, status, hits, intr, res)
        names = [n for s in plan['srcs'] for n in s['data']]
        if hits or fired or intr or damaged or self.expect(plan) is None \
                or len(set(names)) < len(names):
            res.nontrivial = True
        CLOCK.advance(5)
        status, hits, fired, intr = self.process(plan, [], None, res)
        self.judge('second run', plan, status, [], False, res)

    process = C07.process
    send = C07.send
    on_point = C07.on_point

    def put_data(self, plan):
        for i, s in enumerate(plan['srcs']):
            if s['kind'] == 'env' or s['bad'] == 'missing':
                continue
            if s['kind'] == 'pickle':
                data = pickle.dumps(s['data'], 2)
            else:
                data = json.dumps(s['data']).encode('ascii')
            if s['bad'] == 'cut':
                data = data[:max(1, len(data) * 2 // 3)]
            elif s['bad'] == 'junk':
                data = b'\x93{"junk' + data
            elif s['bad'] == 'empty':
                data = b''
            with open(os.path.join(self.root, 'stdin' if s['stdin']
                                   else 'data%d' % i), 'wb') as f:
                f.write(data)

    def argv(self, plan):
        a = ['prog.py']
        for i, s in enumerate(plan['srcs']):
            if s['kind'] == 'env':
                a.append('--env')
            elif i % 2:
                a.append('--%s=%s' % (s['kind'], '-' if s['stdin']
                                      else 'data%d' % i))
            else:
                a += ['--' + s['kind'], '-' if s['stdin'] else 'data%d' % i]
        if plan['opt']:
            if plan['opt'] in ('--pickle', '--json'):
                a.append(plan['opt'])
            else:
                a.insert(1, plan['opt'])
        return a

    def child(self, plan, faults, intr):
        os.chdir(self.root)
        for s in plan['srcs']:
            if s['kind'] == 'env':
                os.environ.update(s['data'])
        events = []
        FS.count_lookups = False
        FS.begin(self.root, {}, on_point=self.on_point if intr else None,
                 log=lambda s: events.append(s))
        out = open('stdout', 'w', encoding=plan['enc'])
        stdin = None
        if os.path.exists('stdin'):
            stdin = open('stdin')

        def die():
            FS.active = False
            with open('stdout', 'rb') as f:
                d = f.read()
            self.send({'died': 1, 'events': events, 'fired': FS.fired,
                       'hits': FS.hits, 'int': 0, 'stdout': d})
            os._exit(CRASH_EXIT)
        FS.crash = die
        real = FS.begin
        real(self.root, dict(map(tuple, faults)), on_point=FS.on_point,
             log=FS.log)
        fired = 0

        def program(t=None):
            return self.program(plan, out, stdin)
        if intr:
            s = sched.Scheduler({'interrupts': [[0] + list(intr)]})
            th = s.spawn(program)
            s.run()
            status = 130 if th.exc is not None else th.result
            fired = s.fired_interrupts
        else:
            status = program()
        FS.active = False
        with open('stdout', 'rb') as f:
            d = f.read()
        self.send({'status': status, 'events': events, 'fired': FS.fired,
                   'hits': FS.hits, 'int': fired, 'stdout': d})
        os._exit(0)

    def program(self, plan, out, stdin):
        """What the interpreter does around the program."""
        sys.argv = self.argv(plan)
        sys.stdout = out
        sys.stdin = stdin or io.TextIOWrapper(io.BytesIO())
        sys.stderr = io.StringIO()
        try:
            ns = {'__name__': '__main__'}
            if plan['via'] == 'call':
                ns['__name__'] = 'prog'
            exec(self.code, ns)
            if plan['via'] == 'call':
                ns['prog']().runAsMainProgram()
            status = 0
        except SystemExit as e:
            c = e.code
            status = 0 if c is None else (c & 0xff) if isinstance(c, int) \
                else 1
        except KeyboardInterrupt:
            status = 130
        except BaseException:
            status = 1
        try:
            out.flush()
        except Exception:
            if status == 0:
                status = 120
        return status

    # ------------------------------------------------------------ judging
    def judge(self, what, plan, status, hits, intr, res):
        res.checks += 1
        excused = bool(hits) or intr
        hits = [h for h in hits if h[2] != 'short' and h[0] != 'close']
        got = self.stdout or b''
        res.log('stdout %d %08x' % (len(got), zlib.crc32(got)))
        if plan['opt']:
            res.probe('option')
            if MARK.encode() in got:
                raise Violation('printed-anyway', '%s: %s was given and the '
                                'template was printed' % (what, plan['opt']))
            if plan['opt'] in ('-h', '--help'):
                if status != 0 and not excused:
                    raise Violation('unexpected-failure', '%s: exit status '
                                    '%s for %s' % (what, status,
                                                   plan['opt']))
                if status == 0 and (hits or intr):
                    raise Violation('failure-not-reported', '%s: exit '
                                    'status 0 although %s'
                                    % (what, hits or 'interrupted'))
            elif status == 0:
                raise Violation('failure-not-reported', '%s: exit status 0 '
                                'for %s' % (what, plan['opt']))
            return
        bad = None
        for s in plan['srcs']:
            if s['bad']:
                bad = 'the %s data is damaged (%s)' % (s['kind'], s['bad'])
        want = self.expect(plan)
        if want is None and not bad:
            bad = 'the template fails'
        if want is not None:
            try:
                want = want.encode(plan['enc'])
            except UnicodeEncodeError:
                bad = bad or 'the text cannot be encoded'
        if bad:
            res.probe('bad')
            if got:
                raise Violation('printed-anyway', '%s: %s and %r was printed'
                                % (what, bad, got[:200]))
        elif not want.startswith(got):
            raise Violation('wrong-output', '%s: printed %r instead of %r'
                            % (what, got[:300], want[:300]))
        if status == 0:
            if bad or hits or intr:
                raise Violation('failure-not-reported', '%s: exit status 0 '
                                'although %s' % (what, bad or hits
                                                 or 'interrupted'))
            if got != want:
                raise Violation('incomplete-output', '%s: exit status 0 but '
                                'only %d of %d bytes were printed'
                                % (what, len(got), len(want)))
        elif status != 'died' and not bad and not excused:
            raise Violation('unexpected-failure', '%s: exit status %s '
                            'without any failure' % (what, status))


PROP = C15()
