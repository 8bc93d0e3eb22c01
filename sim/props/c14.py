"""C14: random numbers and the clock never influence what a template
renders."""
from .. import rig, tmpl
from ..clock import CLOCK, RANDOM
from ..engine import Prop, Violation

KINDS = frozenset(['text', 'ph', 'var', 'set', 'setg', 'cph', 'include',
                   'call0', 'if', 'for', 'filter', 'call', 'call2', 'capture',
                   'cache', 'try', 'block', 'echo'])
TOP = 1 - 2.0 ** -53


class C14(Prop):
    id = 'C14'
    quick_runs = 16000
    thorough_runs = 120000
    quick_cap = 45
    pure_share = 0.1
    rule = ('a seed makes a template program with many cached, captured, '
            'call and filter regions, and adversarial values for the random '
            'source (long runs of one value, two alternating values, extremes)'
            ' and the clock (frozen, running backwards, jumping, zero, '
            'fractional) while it and templates of the same name are '
            'compiled; each class is then filled. Non-trivial: at least two '
            'regions, and the random source repeated a value.')
    measure = 'distinct complete event logs (texts, number of draws)'
    real = ['Cheetah compiler, parser, generated code, Template, '
            'CacheRegion, NameMapper']
    stubbed = ['clock and random source (adversarial)', 'user objects']
    assumptions = ['a run of repeated random values is finite (up to 400 '
                   'draws) before ordinary values follow']

    def gen(self, rng, tier):
        g = tmpl.Gen(rng, KINDS, size=rng.choice([10, 18, 30]), depth=4,
                     ndefs=rng.choice([0, 1, 2]), nfiles=rng.choice([0, 1]),
                     nsrcs=0, timers=False)
        g.WEIGHT = dict(g.WEIGHT, cache=6, cph=5, capture=5, call=4,
                        filter=4)
        prog = g.program()
        compiles = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            n = rng.choice([0, 3, 20, 60, 150, 400])
            v = rng.choice([0.0, TOP, 0.5, rng.random()])
            w = rng.choice([v, v, 0.0, rng.random()])
            mode = rng.choice(['const', 'alt', 'half'])
            clk = rng.choice(['normal', 'frozen', 'back', 'zero', 'jump',
                              'tiny'])
            compiles.append({'n': n, 'v': v, 'w': w, 'mode': mode,
                             'clk': clk,
                             'name': rng.choice(['P', 'P', 'Q', 'json']),
                             'fills': rng.choice([1, 2, 2])})
        return {'prog': prog, 'steps': compiles}

    def repair(self, plan):
        tmpl.repair(plan['prog'])
        return plan

    def simplify(self, plan):
        import copy
        for i, s in enumerate(plan['steps']):
            for k, v in (('n', 20), ('n', 3), ('clk', 'normal'),
                         ('fills', 1), ('name', 'P'), ('mode', 'const')):
                if s[k] != v:
                    c = copy.deepcopy(plan)
                    c['steps'][i][k] = v
                    yield c

    def run(self, plan, res, workdir):
        regions = sum(n['k'] in ('cache', 'cph', 'capture', 'call', 'call2',
                                 'filter')
                      for n in tmpl.all_nodes(plan['prog']))
        insts = []
        repeated = 0
        for j, st in enumerate(plan['steps']):
            script = []
            for i in range(st['n']):
                if st['mode'] == 'const':
                    script.append(st['v'])
                elif st['mode'] == 'alt':
                    script.append(st['v'] if i % 2 else st['w'])
                else:
                    script.append(st['v'] if i < st['n'] // 2 else st['w'])
            RANDOM.reset(plan['seed'] & 0xffff, script)
            self.clock(st['clk'])
            draws0 = RANDOM.draws
            try:
                R = rig.Rig(plan['prog'], workdir, name=st['name'],
                            compile_kw=dict(useCache=False))
            finally:
                CLOCK.source = None
            used = RANDOM.draws - draws0
            repeated = max(repeated, min(used, st['n']))
            res.fault('random-repeat', min(used, st['n']))
            res.fault('clock-' + st['clk'])
            res.log('compile %d' % j)
            x = R.instance('ABCDE'[j], {})
            insts.append((x, st))
        for x, st in insts:
            for _ in range(st['fills']):
                CLOCK.advance(1.0)
                x.begin()
                now = CLOCK.now
                # includes are compiled during the fill
                RANDOM.reset(plan['seed'] & 0xffff, [st['v']] * 200)
                real = x.real_fill()
                want = x.ref_fill(now)
                x.judge(real, want, res)
        for x, st in insts:
            x.finish(res)
        res.nontrivial = regions >= 2 and repeated >= 4

    def clock(self, kind):
        state = {'n': 0, 't': CLOCK.now}

        def frozen(now):
            return now

        def back(now):
            state['n'] += 1
            return now - state['n'] * 3.7

        def jump(now):
            state['n'] += 1
            return now + (state['n'] % 3 - 1) * 1e8

        def tiny(now):
            state['n'] += 1
            return now + state['n'] * 1e-6
        CLOCK.source = {'normal': None, 'frozen': frozen, 'back': back,
                        'zero': lambda now: 0.0, 'jump': jump,
                        'tiny': tiny}[kind]


PROP = C14()
