"""C03: concurrent, nested and failing compiles each end correctly."""
import os
import sys
import types

from .. import rig, sched, tmpl
from ..clock import CLOCK, RANDOM
from ..engine import Prop, Violation
from ..fs import FS

KINDS = frozenset(['text', 'ph', 'var', 'set', 'setg', 'echo', 'if', 'for',
                   'filter', 'call', 'capture', 'cache', 'cph', 'call0',
                   'block', 'oneif', 'try', 'raw'])
BAD = ['$u.v(1)\n#if $x(%d)\nfoo\n', 'a\n#end if#%d', '\n\n${u.v(%d)',
       '#set $x = (1 + ]\n%d', 'x #for $i on [%d]#a#end for#',
       '#def f(%d)#x#end def#', '#nosuch %d\n#end nosuch',
       '#silent if x%d', '#break %d ', '#filter Nope%d\nx']
NAMES = [None, None, 'Ka', 'Kb']
MODS = [None, None, 'simmod_a', 'simmod_b', 'json']
SLOW = ('Parser.py', 'Compiler.py', 'SourceReader.py', 'SettingsManager.py')


def coarse(fn, name):
    return os.path.basename(fn) not in SLOW


class ModFail(Exception):
    pass


class Mini(object):
    """A class that came out of a compile, as the rig wants it."""
    sources = {}
    instance = rig.Rig.instance

    def __init__(self, prog, cls):
        self.prog = prog
        self.cls = cls


class C03(Prop):
    id = 'C03'
    quick_runs = 4000
    thorough_runs = 120000
    quick_cap = 60
    pure_share = 0.05
    rule = ('a seed makes two to four template programs, two to four '
            'threads with lists of compile requests (by source, file or '
            'source-only; a base class, compiler settings, preprocessors, '
            'macros, module globals used by the module code; colliding class and '
            'module names; cache on and off; the same cached '
            'request from several threads; module code that fails, that compiles another template, or '
            'that takes a lock another thread holds while compiling; sources '
            'that do not parse; module files on a failing disk), a schedule '
            'of preemptions and, in a quarter of the runs, interrupts at '
            'function entries, and in many a random source that repeats its '
            'values. Non-trivial: compiles of two threads '
            'overlapped, or a compile failed or was nested.')
    measure = ('distinct scheduling trails: sequence of (thread, file and '
               'line where it was switched out, next thread)')
    real = ['Template.compile, Parser, Compiler, SourceReader, generated '
            'code, compile cache, loaded-module table']
    stubbed = ['clock', 'random source', 'thread scheduler and locks',
               'file faults', 'user objects']
    assumptions = ['interrupts arrive where CPython delivers them: on '
                   'function entry and in blocking calls',
                   'no switch inside importlib']

    # ------------------------------------------------------------ plans
    def gen(self, rng, tier):
        progs = []
        for _ in range(rng.choice([2, 3, 4])):
            g = tmpl.Gen(rng, KINDS, size=rng.choice([2, 4, 8]), depth=2,
                         ndefs=rng.choice([0, 0, 1]), nfiles=0, nsrcs=0,
                         timers=False,
                         filters=['WebSafe', 'Up', 'none', 'Strip'])
            p = g.program()
            for nd in tmpl.all_nodes(p):
                if nd['k'] == 'text' and nd['f'] == 4:
                    nd['f'] = 0     # generated source text is ASCII
            progs.append(p)
        n = rng.choice([1, 2, 2, 2, 3, 4])
        self.next = 0
        threads = [{'ops': [self.op(rng, len(progs), 2)
                            for _ in range(rng.choice([1, 2, 2, 3]))]}
                   for _ in range(n)]
        if rng.random() < 0.3:
            self.twins(rng, threads, len(progs))
        fine = rng.random() < 0.15
        scale = rng.choice([5, 20, 80, 200]) * (12 if fine else 1)
        plan = {'progs': progs, 'threads': threads, 'fine': fine,
                'sched': [[0, rng.randrange(n)]] + [
                    [rng.randrange(1, scale), rng.randrange(n)]
                    for _ in range(rng.randrange(2, 26))],
                'interrupts': [], 'faults': []}
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 1, 2])):
                plan['interrupts'].append(
                    [rng.randrange(n),
                     rng.choice([rng.randrange(1, 60),
                                 rng.randrange(1, 2500)]),
                     rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt',
                                 'SystemExit'])])
        if rng.random() < 0.4:
            # a random source that repeats itself
            vals = [rng.random() for _ in range(rng.choice([1, 1, 2]))]
            plan['draws'] = [rng.choice(vals)
                             for _ in range(rng.choice([4, 20, 60, 150]))]
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 2])):
                plan['faults'].append([rng.randrange(1, 14),
                                       rng.choice(['eio', 'eacces', 'enospc',
                                                   'emfile'])])
        return plan

    def op(self, rng, nprogs, depth):
        self.next += 1
        x = rng.random()
        o = {'k': 'good', 'id': self.next, 'p': rng.randrange(nprogs),
             'cls': rng.choice(NAMES), 'mod': rng.choice(MODS),
             'cache': rng.random() < 0.5, 'how': rng.choice(
                 ['source', 'source', 'file', 'code', 'direct']),
             'opt': rng.randrange(3), 'keep': rng.random() < 0.3,
             'main': rng.choice([None, None, 'render_it']),
             'files': rng.random() < 0.2, 'pre': []}
        if x < 0.14:
            return {'k': 'bad', 'id': self.next,
                    'v': rng.randrange(len(BAD))}
        if x < 0.22:
            o['pre'].append(['fail'])
        elif x < 0.40:
            o['pre'].append(['lock'])
        elif x < 0.58 and depth:
            o['pre'].append(['nested', self.op(rng, nprogs, depth - 1)])
        elif x < 0.72 and depth:
            return {'k': 'hold', 'op': self.op(rng, nprogs, depth - 1)}
        elif x < 0.76:
            return {'k': 'missing', 'id': self.next}
        # further options, only for some: drawn last
        for k, ways in (('early', ('source', 'file', 'code')),
                        ('base', ('source', 'file')),
                        ('tok', ('source', 'file', 'code', 'direct')),
                        ('pre2', ('source', 'file', 'code')),
                        ('mac', ('source', 'file', 'code', 'direct'))):
            if rng.random() < 0.2 and o['how'] in ways:
                o[k] = rng.randrange(1, 3)
        return o

    def twins(self, rng, threads, nprogs):
        """The same request from several threads, served from the cache."""
        while True:
            o = self.op(rng, nprogs, 0)
            if o['k'] == 'good' and not o['pre'] \
                    and o['how'] in ('source', 'direct'):
                break
        o.update(how='source', cache=True, files=False, keep=True)
        for th in threads:
            if rng.random() < 0.8:
                self.next += 1
                th['ops'].insert(rng.choice([0, 0, 1]),
                                 dict(o, id=self.next))

    def repair(self, plan):
        for p in plan['progs']:
            tmpl.repair(p)
        return plan if plan['threads'] else None

    # ------------------------------------------------------------ running
    def source(self, o, prog):
        s = ''
        for i, pre in enumerate(o['pre']):
            s += '#import simhooks\n#attr $k%d = simhooks.run(%d, %d)\n' \
                % (i, o['id'], i)
        if o.get('early'):
            s += '#attr $early = optval\n'
        if o.get('tok'):
            s += '~~c%d\n' % o['tok']
        if o.get('mac'):
            # a macro: compiled while its template is being parsed
            s += '#defmacro dm: m%d@src\n#dm: q\n' % o['mac']
        if o.get('base'):
            s += '$basev;'
        if o.get('early'):
            s += '$early;'
        if o.get('pre2'):
            s += '@PP@;'
        return s + '$optval;' + tmpl.main_source(prog)

    @staticmethod
    def prefix(o):
        """What the options add in front of the output."""
        s = ''
        if o.get('tok') == 1:
            s += '~~c1\n'
        if o.get('mac'):
            s += 'm%dq' % o['mac']
        if o.get('base'):
            s += 'b%d;' % o['base']
        if o.get('early'):
            s += 'o%d;' % o['opt']
        if o.get('pre2'):
            s += 'pp%d;' % o['pre2']
        return s + 'o%d;' % o['opt']

    def compile(self, o, prog, workdir):
        """Perform one request; returns ('cls', class) | ('text', text) |
        ('exc', e)."""
        from Cheetah.Template import Template
        try:
            if o['k'] == 'bad':
                Template.compile(source=BAD[o['v']] % o['id'],
                                 useCache=False)
                return ('cls', None)
            if o['k'] == 'missing':
                Template.compile(file='missing%d.tmpl' % o['id'])
                return ('cls', None)
            src = self.source(o, prog)
            kw = dict(moduleGlobals={'optval': 'o%d' % o['opt']},
                      useCache=o['cache'],
                      cacheCompilationResults=o['cache'],
                      keepRefToGeneratedCode=o['keep'])
            if o['cls']:
                kw['className'] = o['cls']
            if o['mod']:
                kw['moduleName'] = o['mod']
            if o['main']:
                kw['mainMethodName'] = o['main']
            if o['files']:
                kw['cacheModuleFilesForTracebacks'] = True
                kw['cacheDirForModuleFiles'] = os.path.join(workdir, 'mods')
            if o.get('base'):
                kw['baseclass'] = self.bases[o['base'] - 1]
            if o.get('tok') == 2:
                kw['compilerSettings'] = {'commentStartToken': '~~'}
            if o.get('pre2'):
                def pp(source, file):
                    if file:
                        with open(file) as f:
                            source = f.read()
                    return source.replace('@PP@', '@QQ@'), None

                def qq(source, file, n=o['pre2']):
                    return source.replace('@QQ@', 'pp%d' % n), None
                kw['preprocessors'] = [pp, qq]
            if o['how'] == 'file':
                return ('cls', Template.compile(
                    file=os.path.join(workdir, 'src%d.tmpl' % o['id']),
                    **kw))
            if o['how'] == 'code':
                code = Template.compile(source=src, returnAClass=False, **kw)
                return ('code', code)
            if o['how'] == 'direct':
                u = tmpl.User('D%d' % o['id'], {})
                t = Template(source=src, searchList=[
                    dict(tmpl.namespace(u), optval='o%d' % o['opt'])],
                    compilerSettings=kw.get('compilerSettings', {}))
                return ('text', str(t))
            return ('cls', Template.compile(source=src, **kw))
        except (sched.Deadlock, sched.StepLimit):
            raise
        except BaseException as e:
            return ('exc', e)

    def perform(self, o):
        plan = self.plan
        prog = plan['progs'][o.get('p', 0) % len(plan['progs'])]
        if o['k'] == 'hold':
            with self.lock:
                rig.point('held')
                return self.perform(o['op'])
        got = self.compile(o, prog, self.workdir)
        rec = {'op': o, 'got': got, 'prog': prog}
        self.records.append(rec)
        if got[0] == 'cls' and got[1] is not None:
            if o['keep'] and not o['pre']:
                t = got[1]()
                rec['code'] = (t.generatedModuleCode(),)
            if o['main'] is None:
                x = Mini(prog, got[1]).instance('I%d' % o['id'], {})
                x.begin()
                rec['x'] = x
                rec['fill'] = x.real_fill()
        return rec

    def hook(self, oid, i):
        """Called by the module code of a template while it is built."""
        pre = self.byid[oid]['pre'][i]
        rig.point('module code')
        if pre[0] == 'fail':
            raise ModFail('module code of request %d' % oid)
        if pre[0] == 'lock':
            with self.lock:
                rig.point('module code')
            return 'locked'
        if pre[0] == 'nested':
            rec = self.perform(pre[1])
            return rec is not None
        raise AssertionError(pre)

    def index(self, o):
        if o['k'] == 'hold':
            return self.index(o['op'])
        self.byid[o['id']] = o
        for pre in o.get('pre', ()):
            if pre[0] == 'nested':
                self.index(pre[1])

    def run(self, plan, res, workdir):
        from Cheetah.Template import Template
        self.plan, self.workdir = plan, workdir
        self.records = []
        self.byid = {}
        self.lock = sched.SimRLock()

        class Base(Template):
            basev = 'b1'
        one = Base

        class Base(Template):
            basev = 'b2'
        self.bases = [one, Base]
        hooks = types.ModuleType('simhooks')
        hooks.run = self.hook
        sys.modules['simhooks'] = hooks
        os.mkdir(os.path.join(workdir, 'mods'))
        for th in plan['threads']:
            for o in th['ops']:
                self.index(o)
        errors = {}
        for oid, o in self.byid.items():
            if o['k'] == 'good':
                prog = plan['progs'][o['p'] % len(plan['progs'])]
                with open(os.path.join(workdir, 'src%d.tmpl' % oid),
                          'wb') as f:
                    f.write(self.source(o, prog).encode('utf-8'))
            else:
                # what this request does when it runs alone
                errors[oid] = self.compile(o, None, workdir)
        before = set(sys.modules)
        overlap = [0, 0]

        def body(th):
            def fn(t):
                for o in th['ops']:
                    overlap[0] += 1
                    overlap[1] = max(overlap[1], overlap[0])
                    try:
                        self.perform(o)
                    finally:
                        overlap[0] -= 1
            return fn
        s = sched.Scheduler(plan, None if plan['fine'] else coarse)
        for th in plan['threads']:
            s.spawn(body(th))
        FS.begin(workdir, dict((n, k) for n, k in plan['faults']),
                 on_point=lambda op, path: rig.point('fs'))
        FS.stat_faults = False
        if plan.get('draws'):
            RANDOM.reset(plan['seed'] & 0xffff, plan['draws'])
        try:
            s.run()
        finally:
            FS.end()
        res.trail = s.trail
        res.fault('preemption', s.switches)
        if plan.get('draws'):
            res.fault('random-repeat', RANDOM.pos)
            RANDOM.reset(plan['seed'] >> 16 & 0xffff)
        res.fault('interrupt', s.fired_interrupts)
        for k, v in FS.fired.items():
            res.fault('disk-' + k, v)
        for t in s.threads:
            e = t.exc
            if e is None or (s.fired_interrupts and isinstance(
                    e, (KeyboardInterrupt, SystemExit))):
                continue
            kind = 'deadlock' if isinstance(e, sched.Deadlock) else \
                'never-ends' if isinstance(e, sched.StepLimit) \
                else 'unexpected-error'
            raise Violation(kind, 'thread %s ended with %s: %s'
                            % (t.name, type(e).__name__, rig.brief(e)))
        self.judge(plan, res, s, before, errors)
        self.later(plan, res, errors, workdir)
        res.nontrivial = overlap[1] > 1 or any(
            r['got'][0] == 'exc' or any(p[0] == 'nested' for p in
                                        r['op'].get('pre', ()))
            for r in self.records)

    def allowed_error(self, o, e, s, res):
        """Whether request o may end with e."""
        if s.fired_interrupts and isinstance(e, (KeyboardInterrupt,
                                                 SystemExit)) \
                and 'simulated interrupt' in str(e):
            res.probe('compile-interrupted')
            return True
        if FS.fired and isinstance(e, OSError):
            res.probe('compile-io-error')
            return True
        if isinstance(e, ModFail):
            res.probe('module-code-failed')
            # its own failure; nested failures are recorded by the hook
            return any(p[0] == 'fail' for p in o.get('pre', ())) and \
                str(e) == 'module code of request %d' % o['id']
        return False

    def judge(self, plan, res, s, before, errors):
        owned = {}
        for rec in self.records:
            o, got = rec['op'], rec['got']
            res.checks += 1
            what = 'request %d' % o['id']
            if got[0] == 'exc':
                e = got[1]
                res.log('%s raised %s: %s' % (what, type(e).__name__,
                                              rig.brief(e)))
                if self.allowed_error(o, e, s, res):
                    continue
                if o['id'] in errors:
                    w = errors[o['id']]
                    if w[0] == 'exc' and type(w[1]) is type(e) \
                            and self.same(w[1], e):
                        res.probe('compile-failed')
                        continue
                    raise Violation(
                        'wrong-error', '%s alone gives %r, here it raised '
                        '%s: %s' % (what, w, type(e).__name__, e))
                raise Violation('unexpected-error', '%s raised %s: %s'
                                % (what, type(e).__name__, e))
            if o['id'] in errors:
                raise Violation('error-swallowed', '%s should fail with %r'
                                % (what, errors[o['id']][1]))
            if any(p[0] == 'fail' for p in o['pre']) and got[0] != 'code':
                raise Violation('error-swallowed', 'the module code of %s '
                                'fails, but the compile succeeded' % what)
            res.log('%s gave %s' % (what, got[0]))
            if got[0] == 'cls':
                self.judge_class(what, rec, res, owned)
            elif got[0] == 'text':
                ref = tmpl.Ref(rec['prog'], tmpl.RefUser('D%d' % o['id'], {}))
                ref.u.fillno = 0
                self.same_text(what, got[1], self.prefix(o)
                               + ref.fill(CLOCK.now))
            elif got[0] == 'code' and not o['pre']:
                self.judge_code(what, rec)
        for name in sorted(set(sys.modules) - before):
            mod = sys.modules[name]
            if name in owned or mod is None \
                    or not hasattr(mod, '__CHEETAH_version__') \
                    and not self.templatish(name):
                continue
            res.checks += 1
            complete = [c for c in vars(mod).values()
                        if isinstance(c, type) and c.__module__ == name
                        and hasattr(c, '_mainCheetahMethod_for_'
                                    + c.__name__)]
            # their classes are not handed out
            direct = any(r['op'].get('how') == 'direct' or r['op'].get('mac')
                         for r in self.records)
            if not complete or not (s.fired_interrupts or direct):
                raise Violation('left-over-module', 'module %r is loaded but '
                                'no compile returned its class (%s)'
                                % (name, sorted(vars(mod))[:8]))

    def templatish(self, name):
        return any(x in name for x in ('simmod_', 'json', 'Cheetah_', 'src',
                                       'cheetah_', 'DynamicallyCompiled'))

    @staticmethod
    def same(a, b):
        import re

        def norm(e):
            # names of modules that had to be made unique differ
            return re.sub(r'cheetah_\w+|\d{6,}', '', str(e))
        return norm(a) == norm(b)

    def judge_class(self, what, rec, res, owned):
        o, cls = rec['op'], rec['got'][1]
        if not isinstance(cls, type):
            raise Violation('wrong-class', '%s returned %r' % (what, cls))
        mod = sys.modules.get(cls.__module__)
        if mod is None or getattr(mod, cls.__name__, None) is not cls:
            raise Violation('module-missing', '%s: the class is not in a '
                            'loaded module %r' % (what, cls.__module__))
        if o['cls'] and cls.__name__ != o['cls']:
            raise Violation('wrong-class', '%s asked for class %r and got %r'
                            % (what, o['cls'], cls.__name__))
        if o['main'] and not hasattr(cls, o['main']):
            raise Violation('wrong-class', '%s: no method %r'
                            % (what, o['main']))
        if 'code' in rec and 'class %s(' % cls.__name__ not in (
                rec['code'][0] or ''):
            raise Violation('wrong-class', '%s asked for the generated code '
                            'to be kept, and the class had %r'
                            % (what, (rec['code'][0] or '')[:200]))
        if owned.setdefault(cls.__module__, cls) is not cls:
            raise Violation('module-shared', '%s: its module %r already '
                            'belongs to another class'
                            % (what, cls.__module__))
        if not o['cache'] and getattr(cls, '_sim_seen', None) is not None:
            raise Violation('wrong-class', '%s was compiled with the cache '
                            'off but shares the class of request %d'
                            % (what, cls._sim_seen))
        if not o['cache']:
            cls._sim_seen = o['id']
        if 'x' in rec:
            x = rec['x']
            x.nfill = 1
            want = x.ref_fill(CLOCK.now)
            if want[0] == 'ok':
                want = ('ok', self.prefix(o) + want[1])
            x.judge(self.uninterrupted(rec['fill'], res) or want, want, res,
                    what=what + ': ')
            x.finish(res)

    @staticmethod
    def uninterrupted(real, res):
        if real[0] == 'exc' and 'simulated interrupt' in str(real[1]):
            res.probe('fill-interrupted')
            return None
        return real

    def judge_code(self, what, rec):
        o = rec['op']
        ns = {'__name__': 'simcode', 'optval': 'o%d' % o['opt'],
              '__file__': 'simcode.py'}
        mod = types.ModuleType('simcode')
        mod.__dict__.update(ns)
        sys.modules['simcode'] = mod
        try:
            exec(compile(rec['got'][1], 'simcode.py', 'exec'), mod.__dict__)
        except Exception as e:
            raise Violation('wrong-code', '%s: the generated source does not '
                            'run: %s' % (what, e))
        cls = getattr(mod, o['cls'] or o['mod']
                      or 'DynamicallyCompiledCheetahTemplate', None)
        if cls is None:
            raise Violation('wrong-code', '%s: no class of the right name in '
                            'the generated source' % what)
        u = tmpl.User('C%d' % o['id'], {})
        t = cls(searchList=[tmpl.namespace(u)])
        ref = tmpl.Ref(rec['prog'], tmpl.RefUser('C%d' % o['id'], {}))
        self.same_text(what, getattr(t, o['main'] or 'respond')(),
                       self.prefix(o) + ref.fill(CLOCK.now))
        del sys.modules['simcode']

    @staticmethod
    def same_text(what, got, want):
        if got != want:
            raise Violation('wrong-output', '%s renders %r, expected %r'
                            % (what, got, want))

    def later(self, plan, res, errors, workdir):
        """Compiles after everything has ended."""
        self.records = []
        s = sched.Scheduler({}, coarse)

        def body(t):
            for oid in sorted(self.byid):
                o = self.byid[oid]
                if o['k'] != 'good' or o['how'] == 'direct':
                    continue
                if any(p[0] != 'lock' for p in o['pre']):
                    continue
                self.perform(o)
        s.spawn(body)
        FS.fired = {}
        s.run()
        e = s.threads[0].exc
        if e is not None:
            raise Violation('deadlock' if isinstance(e, sched.Deadlock)
                            else 'unexpected-error', 'a later compile ended '
                            'with %s: %s' % (type(e).__name__, e))
        for rec in self.records:
            o, got = rec['op'], rec['got']
            res.checks += 1
            what = 'later compile of request %d' % o['id']
            if got[0] == 'exc':
                raise Violation('unexpected-error', '%s raised %s: %s'
                                % (what, type(got[1]).__name__, got[1]))
            if got[0] == 'cls' and 'x' in rec:
                x = rec['x']
                x.nfill = 1
                want = x.ref_fill(CLOCK.now)
                if want[0] == 'ok':
                    want = ('ok', self.prefix(o) + want[1])
                x.judge(rec['fill'], want, res, what=what + ': ')


PROP = C03()
