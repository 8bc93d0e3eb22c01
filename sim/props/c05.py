"""C05: a failed fill leaves no trace in later fills."""
import json
import os

from .. import rig, sched, tmpl
from ..clock import CLOCK
from ..engine import Prop, Violation

KINDS = rig.ALL_KINDS
PLAIN = KINDS - {'cache', 'cph', 'setg'}


BROKEN = 'x #if 1# y $u.v( #end'


class C05(Prop):
    id = 'C05'
    quick_runs = 22000
    thorough_runs = 150000
    pure_share = 0.15
    rule = ('a seed makes a template program from all region and control '
            'directives, one or two instances, and a history of fills with '
            'exceptions planned at chosen callbacks (values, conditions, '
            'iterators, filters, call targets), missing, unreadable or broken '
            'include files, and, in a third of the runs, an interrupt at the '
            'n-th function entry anywhere in Cheetah. Non-trivial: at least '
            'one fill failed or the template caught an error, and a later '
            'fill was compared.')
    measure = 'distinct complete event logs (fills with texts, in order)'
    real = ['Cheetah compiler, parser, generated code, Template, filters, '
            'DummyTransaction, CacheRegion, NameMapper']
    stubbed = ['clock', 'random source', 'user objects', 'scheduler that '
               'places interrupts']
    assumptions = ['interrupts arrive where CPython delivers them: on '
                   'function entry, or inside user code',
                   'after an interrupt at an arbitrary place the harness '
                   'reads how many callbacks had run from its own user '
                   'object']

    def gen(self, rng, tier):
        mode = rng.choice(['exc', 'exc', 'int'])
        deep = tier == 'thorough' and rng.random() < 0.3
        kinds = KINDS if mode == 'exc' else PLAIN
        g = tmpl.Gen(rng, kinds, size=rng.choice([8, 14, 20]) * (2 if deep
                                                                else 1),
                     depth=rng.choice([3, 4, 5]),
                     ndefs=rng.choice([0, 1, 2]),
                     nfiles=rng.choice([0, 1, 2]),
                     nsrcs=rng.choice([0, 0, 1]),
                     inherit=rng.random() < 0.25, catch=rng.random() < 0.15,
                     timers=False, stateful=mode == 'exc')
        g.WEIGHT = dict(g.WEIGHT, filter=3, call=3, capture=3, nope=0.4,
                        **{'raise': 0.5, 'try': 3, 'stop': 0.6})
        prog = g.program()
        keys = rig.user_keys(prog)
        ninst = rng.choice([1, 1, 2])
        users = []
        for _ in range(ninst):
            faults = []
            if keys and (mode == 'exc' or rng.random() < 0.3):
                for _ in range(rng.randrange(1, 6)):
                    faults.append([rng.choice(keys), rng.randrange(1, 8),
                                   rng.choice(tmpl.EXC_NAMES)])
            users.append({'faults': faults, 'make': rig.how_made(rng)})
            if rng.random() < 0.2:
                users[-1]['filter'] = rng.choice(
                    ['WebSafe', 'Tag' if mode == 'exc' else 'Strip'])
        ops = []
        for _ in range(rng.randrange(3, 9)):
            if mode == 'exc' and prog['files'] and rng.random() < 0.25:
                ops.append(['file', rng.randrange(len(prog['files'])),
                            rng.choice(['hide', 'break', 'show', 'show'])])
            ops.append(['fill', rng.randrange(ninst),
                        rng.choice(['str', 'str', 'respond'])])
            if mode == 'int' and rng.random() < 0.6:
                ops[-1].append(rng.choice([rng.randrange(1, 12),
                                           rng.randrange(1, 60),
                                           rng.randrange(1, 400)]))
        if prog['files']:
            ops.append(['show-all'])
        for i in range(ninst):
            ops += [['fill', i, 'str']] * 2
        return {'prog': prog, 'users': users, 'ops': ops, 'mode': mode}

    def repair(self, plan):
        tmpl.repair(plan['prog'])
        return plan

    def run(self, plan, res, workdir):
        from Cheetah.Parser import ParseError
        R = rig.Rig(plan['prog'], workdir)
        state = {}
        self.good = tmpl.file_sources(plan['prog'])

        def on_include(inst, key):
            if key[0] == 'file' and state.get(key[1], 'show') != 'show':
                res.fault('include-' + state[key[1]])
                if state[key[1]] == 'hide':
                    raise FileNotFoundError('f%d.tmpl' % key[1])
                if key[2]:
                    return BROKEN
                raise ParseError.__new__(ParseError)
        insts = []
        for i, spec in enumerate(plan['users']):
            x = R.instance('AB'[i], spec)
            x.ref.on_include = on_include
            insts.append(x)
        failed = compared = False
        try:
            for op in plan['ops']:
                if op[0] == 'file':
                    self.file(workdir, op[1], op[2], state, res)
                    continue
                if op[0] == 'show-all':
                    for n in list(state):
                        self.file(workdir, n, 'show', state, res)
                    continue
                x = insts[op[1]]
                CLOCK.advance(1.13)
                if len(op) > 3:
                    if self.interrupted(x, op, res):
                        failed = True
                        continue
                else:
                    x.begin()
                    real = x.real_fill(op[2])
                    want = x.ref_fill(CLOCK.now)
                    self.judge(x, real, want, res)
                    if want[0] == 'exc':
                        failed = True
                        continue
                if failed:
                    compared = True
        except tmpl.Ambiguous as e:
            res.probe('ambiguous')
            res.log('not judged further: %s' % e)
        for x in insts:
            x.finish(res)
            if x.ref.stats.get('caught-by-template'):
                failed = compared = True
        res.nontrivial = failed and compared

    def judge(self, x, real, want, res):
        if want[0] == 'exc' and type(want[1]).__name__ in (
                'FileNotFoundError', 'ParseError'):
            res.checks += 1
            name = type(want[1]).__name__
            res.log('%s fill %d: %s' % (x.tag, x.nfill, name))
            if real[0] != 'exc':
                raise Violation('error-swallowed', 'fill %d of %s should '
                                'raise %s but gave %r'
                                % (x.nfill, x.tag, name, real[1]))
            if type(real[1]).__name__ != name:
                raise Violation('wrong-error', 'fill %d of %s should raise '
                                '%s but raised %s: %s'
                                % (x.nfill, x.tag, name,
                                   type(real[1]).__name__,
                                   rig.brief(real[1])))
            return
        x.judge(real, want, res)

    def file(self, workdir, n, what, state, res):
        if n >= len(self.good):
            return
        path = os.path.join(workdir, 'f%d.tmpl' % n)
        CLOCK.advance(2.5)
        if what == 'hide':
            if os.path.exists(path):
                os.rename(path, path + '.hidden')
        else:
            if os.path.exists(path + '.hidden'):
                os.rename(path + '.hidden', path)
            with open(path, 'wb') as f:
                f.write(self.good[n].encode('ascii') if what == 'show'
                        else BROKEN.encode())
            os.utime(path, (CLOCK.now, CLOCK.now))
        state[n] = what
        res.log('file %d %s' % (n, what))

    def replaced(self, x, real):
        """A #finally block of the template itself may raise another error
        (which then carries the interrupt as its context) or stop the
        template while the interrupt is on its way."""
        blocks = [n['finally'] for n in tmpl.all_nodes(x.rig.prog)
                  if n['k'] == 'try' and n.get('finally')]
        if not blocks:
            return False
        if real[0] == 'ok':
            # ... or its error may be caught further out
            return 'stop' in json.dumps(blocks) \
                or x.rig.prog.get('catch') or any(
                    n.get('exc') for n in tmpl.all_nodes(x.rig.prog))
        e = real[1]
        while e is not None:
            if isinstance(e, KeyboardInterrupt):
                return True
            e = e.__context__
        return False

    def interrupted(self, x, op, res):
        """A fill with an interrupt at some function entry; True if it fired
        and reached the caller."""
        x.begin()
        s = sched.Scheduler({'interrupts': [[0, op[3], 'KeyboardInterrupt']]})
        out = []
        s.spawn(lambda t: out.append(x.real_fill(op[2])))
        s.run()
        if s.threads[0].exc is not None:
            # raised in the harness around the fill itself
            out = [('exc', s.threads[0].exc)]
        real = out[0]
        want = x.ref_fill(CLOCK.now)
        if not s.fired_interrupts:
            self.judge(x, real, want, res)
            return want[0] == 'exc'
        res.fault('interrupt', s.fired_interrupts)
        res.checks += 1
        where = [t for t in s.trail if t[2] == 'KeyboardInterrupt'][0][1]
        res.log('%s fill %d interrupted in %s' % (x.tag, x.nfill, where
                if isinstance(where, str) else where[1]))
        if (real[0] != 'exc' or not isinstance(real[1], KeyboardInterrupt)) \
                and not self.replaced(x, real):
            raise Violation('interrupt-lost', 'fill %d of %s was interrupted '
                            'in %s but ended with %r'
                            % (x.nfill, x.tag, where, real[1]))
        x.ref.u.counts = dict(x.u.counts)
        return True


PROP = C05()
