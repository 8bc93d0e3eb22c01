"""C02: threads sharing template classes render exactly as if each ran
alone."""
import os

from .. import rig, sched, tmpl
from ..clock import CLOCK
from ..engine import Prop, Violation

SLOW = ('Parser.py', 'Compiler.py', 'SourceReader.py', 'SettingsManager.py')


def trace_filter(fn, name):
    return os.path.basename(fn) not in SLOW


# ---- templates that use the line-based #indent directive

def indent_source(lines):
    out = ['#indent on']
    for ln in lines:
        k = ln[0]
        if k == 'text':
            out.append('%stext%d' % (' ' * ln[2], ln[1]))
        elif k == 'ph':
            out.append('x $u.v(%d) y' % ln[1])
        elif k == 'silent':
            out.append('#silent $u.v(%d)' % ln[1])
        elif k == 'set':
            out.append('#indent =%d' % ln[1])
        else:
            out.append('#indent ' + {'inc': '++', 'dec': '--'}.get(k, k))
    return '\n'.join(out) + '\nend'


class IndentRef(object):
    def __init__(self, lines, user):
        self.lines = lines
        self.u = user
        self.level = 0
        self.on = True
        self.stack = []

    def fill(self, now):
        out = []
        self.on = True
        for ln in self.lines:
            k = ln[0]
            ind = '    ' * self.level if self.on else None
            if k == 'text':
                out.append((ind if self.on else ' ' * ln[2])
                           + 'text%d\n' % ln[1])
            elif k == 'ph':
                out.append((ind or '') + 'x %s y\n'
                           % self.u.value('v%d' % ln[1]))
            elif k == 'silent':
                self.u.value('v%d' % ln[1])
            elif k == 'set':
                self.level = ln[1]
            elif k == 'inc':
                self.level += 1
            elif k == 'dec':
                self.level = max(0, self.level - 1)
            elif k == 'push':
                self.stack.append(self.level)
            elif k == 'pop':
                self.level = self.stack.pop() if self.stack else 0
            elif k == 'on':
                self.on = True
            elif k == 'off':
                self.on = False
        out.append(('    ' * self.level if self.on else '') + 'end')
        return u''.join(out)


class IndentRig(rig.Rig):
    def __init__(self, lines, name):
        from Cheetah.Template import Template
        self.lines = lines
        self.prog = {}
        self.sources = {}
        self.src = indent_source(lines)
        self.cls = Template.compile(source=self.src, className=name)

    def instance(self, tag, spec, **kw):
        u = tmpl.User(tag, spec, on_call=rig.point)
        t = self.cls(searchList=[tmpl.namespace(u)], **kw)
        x = rig.Instance.__new__(rig.Instance)
        x.rig = self
        x.t = t
        x.u = u
        x.ref = IndentRef(self.lines, tmpl.RefUser(tag, spec))
        x.ref.stats = {}
        x.nfill = 0
        x.tag = tag
        return x


class C02(Prop):
    id = 'C02'
    quick_runs = 11000
    thorough_runs = 150000
    quick_cap = 60
    pure_share = 0.1
    rule = ('a seed makes one or two template programs from all directives '
            '(or a template of #indent lines, or a #yield generator), two to '
            'four threads that each create and fill their own instances of '
            'the shared classes, to strings or into responses, with '
            'exceptions planned at callbacks in some, and a schedule of '
            'preemptions at lines (in a fifth of the runs: bytecodes) of '
            'Cheetah and of generated code, at callbacks and at locks. '
            'Non-trivial: at least two threads were switched away from in '
            'the middle of a fill.')
    measure = ('distinct scheduling trails: sequence of (thread, file and '
               'line where it was switched out, next thread)')
    real = ['generated code, Template, Filters, ErrorCatchers, Indenter, '
            'CacheRegion, CacheStore, DummyTransaction, NameMapper, compiler '
            'for included templates']
    stubbed = ['clock', 'random source', 'user objects',
               'thread scheduler and locks']
    assumptions = ['C code (the compiled NameMapper, built-ins) runs without '
                   'a thread switch unless it calls Python code',
                   'no switch inside importlib or in the Cheetah parser and '
                   'compiler proper (C03 covers compiles)']

    def gen(self, rng, tier):
        deep = tier == 'thorough' and rng.random() < 0.3
        progs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            x = rng.random()
            if x < 0.1:
                progs.append({'lines': self.lines(rng)})
                continue
            gen = x < 0.25
            kinds = rig.ALL_KINDS | {'yield'} if gen else rig.ALL_KINDS
            g = tmpl.Gen(rng, kinds, size=rng.choice([6, 10, 16])
                         * (2 if deep else 1), depth=rng.choice([2, 3, 4]),
                         ndefs=rng.choice([0, 1, 2]),
                         nfiles=rng.choice([0, 0, 1]),
                         nsrcs=rng.choice([0, 0, 1]), gen=gen,
                         inherit=not gen and rng.random() < 0.25,
                         catch=not gen and rng.random() < 0.2, timers=False)
            g.WEIGHT = dict(g.WEIGHT, stop=0.3, nope=0.2, **{'raise': 0.2})
            p = g.program()
            for nd in tmpl.all_nodes(p):
                if nd['k'] == 'include':
                    nd['pfx'] = 'p%d_' % len(progs)
            progs.append(p)
        n = rng.choice([2, 2, 2, 3, 4])
        threads = []
        for _ in range(n):
            insts = []
            for _ in range(rng.choice([1, 1, 2])):
                p = rng.randrange(len(progs))
                keys = rig.user_keys(progs[p]) if 'main' in progs[p] else []
                faults = []
                if keys and rng.random() < 0.25:
                    for _ in range(rng.randrange(1, 4)):
                        faults.append([rng.choice(keys), rng.randrange(1, 6),
                                       rng.choice(tmpl.EXC_NAMES)])
                insts.append({'p': p, 'faults': faults,
                              'make': rig.how_made(rng),
                              'filter': rng.choice([None, None, None,
                                                    'WebSafe', 'Tag']),
                              'fills': rng.choice([1, 2, 2, 3])})
            threads.append({'ops': insts,
                            'mode': rng.choice(['str', 'str', 'respond',
                                                'trans'])})
        opcodes = rng.random() < 0.2
        scale = rng.choice([6, 25, 60, 150]) * (4 if opcodes else 1)
        sched_ = [[0, rng.randrange(n)]] + [
            [rng.randrange(1, scale), rng.randrange(n)]
            for _ in range(rng.randrange(2, 60 if deep else 30))]
        return {'progs': progs, 'threads': threads, 'sched': sched_,
                'opcodes': opcodes,
                'store': rng.choice(['own', 'own', 'shared']),
                'warm': rng.random() < 0.3}

    def lines(self, rng):
        out = []
        n = 0
        for _ in range(rng.randrange(4, 14)):
            n += 1
            k = rng.choice(['text', 'ph', 'ph', 'silent', 'inc', 'inc', 'dec',
                            'push', 'pop', 'set', 'on', 'off'])
            if k == 'text':
                out.append([k, n, rng.randrange(3)])
            elif k == 'set':
                out.append([k, rng.randrange(4)])
            else:
                out.append([k, n])
        return out

    def repair(self, plan):
        for p in plan['progs']:
            if 'main' in p:
                tmpl.repair(p)
        if not plan['threads']:
            return None
        return plan

    def run(self, plan, res, workdir):
        from Cheetah.CacheStore import MemoryCacheStore
        store = MemoryCacheStore() if plan['store'] == 'shared' else None
        rigs = []
        for i, p in enumerate(plan['progs']):
            if 'lines' in p:
                rigs.append(IndentRig(p['lines'], 'I%d' % i))
            else:
                rigs.append(rig.Rig(p, workdir, name='P%d' % i, store=store,
                                    prefix='p%d_' % i))
        if plan['warm']:
            # one instance filled before the threads start: what it leaves
            # behind in the classes is there for all of them
            for r in rigs:
                x = r.instance('W', {})
                x.begin()
                real = x.real_fill()
                x.judge(real, x.ref_fill(CLOCK.now), res)
        done = []

        def body(ti, th):
            def fn(t):
                insts = []
                for k, spec in enumerate(th['ops']):
                    tag = 'ABCD'[ti] + 'xyz'[k % 3]
                    insts.append((rigs[spec['p'] % len(rigs)].instance(
                        tag, spec), spec))
                # round robin over this thread's instances; generators are
                # stepped alternately
                live = [(x, sp['fills'], None) for x, sp in insts]
                while live:
                    nxt = []
                    for x, left, it in live:
                        if x.rig.prog.get('gen'):
                            it, end = self.step(x, it, done)
                            left -= end
                        else:
                            x.begin()
                            mode = th['mode']
                            resp = rig.Chunks() if mode == 'trans' else None
                            s.point('user')
                            done.append((x, x.nfill,
                                         x.real_fill(mode, resp)))
                            left -= 1
                        if left > 0:
                            nxt.append((x, left, it))
                    live = nxt
            return fn
        s = sched.Scheduler(plan, trace_filter, opcodes=plan['opcodes'])
        for ti, th in enumerate(plan['threads']):
            s.spawn(body(ti, th))
        s.run()
        res.trail = s.trail
        res.fault('preemption', s.switches)
        for t in s.threads:
            if t.exc is not None:
                kind = 'deadlock' if isinstance(t.exc, sched.Deadlock) else \
                    'never-ends' if isinstance(t.exc, sched.StepLimit) \
                    else 'unexpected-error'
                raise Violation(kind, 'thread %s ended with %s: %s'
                                % (t.name, type(t.exc).__name__,
                                   rig.brief(t.exc)))
        insts = {}
        for x, nfill, real in done:
            insts[id(x)] = x
            x.nfill = nfill
            x.ref.u.fillno = nfill
            want = x.ref_fill(CLOCK.now)
            x.judge(real, want, res)
        for x in insts.values():
            x.finish(res)
        mid = set(t[0] for t in s.trail if t[1] != 'block')
        res.nontrivial = len(mid) >= 2

    def step(self, x, it, done):
        """One step of a template generator: (iterator, 1 when it ended)."""
        try:
            if it is None:
                x.begin()
                it = (iter(x.t.respond()), [])
            it[1].append(next(it[0]))
            return it, 0
        except StopIteration:
            done.append((x, x.nfill, ('ok', it[1])))
            return None, 1
        except (sched.Deadlock, sched.StepLimit):
            raise
        except BaseException as e:
            done.append((x, x.nfill, ('exc', e)))
            return None, 1


PROP = C02()
