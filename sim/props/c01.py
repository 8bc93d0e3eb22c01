"""C01: cached regions are reused and refreshed exactly when they should be."""
import time

from .. import rig, tmpl
from ..clock import CLOCK
from ..engine import Prop, Violation

KINDS = frozenset(['text', 'ph', 'var', 'echo', 'setg', 'set', 'oneif', 'cph',
                   'include', 'call0', 'super', 'if', 'for', 'repeat',
                   'filter', 'call', 'capture', 'cache', 'try', 'block',
                   'break', 'continue', 'stop', 'raise', 'nope', 'silent',
                   'elif', 'getvar'])
STEPS = [0.21, 1.37, 4.21, 4.93, 5.07, 5.3, 89.93, 90.07, 119.93, 120.07,
         30.11, 61.3, 89.77, 91.3, 119.53, 121.7,
         200.9, 1801.3, 7200.7, -3.3, -50.3, -4000.9]


class StoreDown(Exception):
    pass


class HarnessStore(object):
    """A cache store as a user would write one: honours expiry times or
    keeps expired entries, can lose entries, can fail to store."""

    def __init__(self, sized):
        self.d = {}
        self.nset = 0
        self.fail_sets = set()
        self.failed = 0
        self.lazy = False
        if sized:
            self.__class__ = SizedStore

    def set(self, key, val, time=0):
        self.nset += 1
        if self.nset in self.fail_sets:
            self.failed += 1
            raise StoreDown('store down at set %d' % self.nset)
        self.d[key] = (val, time)

    def add(self, key, val, time=0):
        raise AssertionError('not used')
    replace = add

    def get(self, key):
        val, exp = self.d[key]
        if exp and time.time() > exp and not self.lazy:
            del self.d[key]
            raise KeyError(key)
        return val

    def delete(self, key):
        if key not in self.d:
            raise KeyError(key)
        del self.d[key]

    def evict(self, prefix):
        gone = [k for k, v in self.d.items()
                if v[0].startswith(prefix)]
        for k in gone:
            del self.d[k]
        return len(gone)


class SizedStore(HarnessStore):
    def __len__(self):
        return len(self.d)


class C01(Prop):
    id = 'C01'
    quick_runs = 22000
    thorough_runs = 120000
    pure_share = 0.1
    rule = ('a seed makes a template program with nested cached regions and '
            'cached placeholders (custom ids, vary-by keys, timers, tests; '
            'in methods, overriding methods, blocks, includes and loops), one '
            'or two live instances and a history of fills, clock movements, '
            'refresh requests, evictions and failures. Non-trivial: at least '
            'one stored entry was reused and at least one was recomputed '
            'after expiry, test, refresh, eviction or failure.')
    measure = 'distinct complete event logs (fills with texts, in order)'
    real = ['Cheetah compiler, parser, generated code, Template, '
            'CacheRegion, CacheItem, MemoryCacheStore, NameMapper']
    stubbed = ['clock', 'random source', 'user objects',
               'custom cache stores in a third of the runs']
    assumptions = ['a refresh interval that runs out while the region is '
                   'being computed may count from the start or the end of '
                   'the computation',
                   'custom stores honour the expiry time they are given or keep '
                   'entries longer, never shorter unless they lose them']

    def gen(self, rng, tier):
        deep = tier == 'thorough' and rng.random() < 0.3
        # a fifth of the runs: long histories of few regions
        focus = rng.random() < 0.2
        size = rng.choice([8, 12, 18]) * (2 if deep else 1)
        g = tmpl.Gen(rng, KINDS, size=rng.choice([2, 3, 4]) if focus
                     else size,
                     depth=4, ndefs=rng.choice([0, 1, 2]),
                     nfiles=rng.choice([0, 1, 1]),
                     nsrcs=rng.choice([0, 0, 1]),
                     inherit=rng.random() < 0.25)
        g.WEIGHT = dict(g.WEIGHT, cache=7, cph=5, stop=0.3, nope=0.2,
                        **{'raise': 0.3})
        prog = g.program()
        ninst = rng.choice([1, 1, 2, 2, 3])
        if focus:
            ninst = rng.choice([1, 1, 2])
            b = prog['main']['body']
            if not any(n['k'] == 'cache' for n in b):
                g.ctx = dict(methods=[], file_from=9, in_loop=0, region=0,
                             main=True, insrc=True)
                b.append(g.n_cache(3, 'cache'))
            for n in tmpl.all_nodes(prog):
                if n['k'] == 'cache':
                    n['custom'] = rng.random() < 0.9
                    n['vary'] = rng.random() < 0.6
                    n['iv'] = rng.choice([n['iv'], '5s', '2m'])
        cids = [(n['cid'], n['k'] == 'cache' and n['custom']
                 and tmpl.cache_id(n), n.get('vary'))
                for n in tmpl.all_nodes(prog) if n['k'] in ('cache', 'cph')]
        ivs = sorted(set(tmpl.interval(n['iv'])
                         for n in tmpl.all_nodes(prog)
                         if n['k'] in ('cache', 'cph') and n['iv']))
        ops = []
        n = rng.randrange(4, 14 if not deep else 40)
        if focus:
            n = rng.randrange(15, 40)
        for _ in range(n):
            x = rng.random()
            i = rng.randrange(ninst)
            if x < 0.5 or not ops:
                ops.append(['fill', i])
            elif x < 0.75:
                ops.append(['clock', self.step(rng, ivs)])
            elif x < 0.87:
                custom = [c for c in cids if c[1]]
                if custom and rng.random() < 0.8:
                    c = rng.choice(custom)
                    item = None
                    if c[2] and rng.random() < 0.6:
                        item = tmpl.vary_index(c[0], rng.randrange(3))
                    ops.append(['refresh', i, c[0], item, c[1],
                                rng.random() < 0.25])
                else:
                    ops.append(['refresh', i, rng.choice([None, -1]), None])
                if rng.random() < 0.3:
                    ops.append(list(ops[-1]))
            else:
                ops.append(['evict', rng.choice(
                    [None] + [c[0] for c in cids])])
        keys = rig.user_keys(prog)
        users = []
        for _ in range(ninst):
            faults = []
            if keys and rng.random() < 0.5:
                for _ in range(rng.randrange(1, 5)):
                    faults.append([rng.choice(keys), rng.randrange(1, 9),
                                   rng.choice(tmpl.EXC_NAMES)])
            slow = []
            if keys and rng.random() < 0.3:
                for _ in range(rng.randrange(1, 3)):
                    slow.append([rng.choice(keys), rng.randrange(1, 6),
                                 rng.choice([2.13, 70.9, 130.3])])
            users.append({'faults': faults, 'slow': slow,
                          'make': rig.how_made(rng)})
        store = rng.choice(['memory', 'memory', 'shared', 'shared-sized',
                            'shared-lazy'])
        if store == 'memory':
            ops = [o for o in ops if o[0] != 'evict']
        fails = []
        if store in ('shared', 'shared-sized') and rng.random() < 0.4:
            fails = sorted(set(rng.randrange(1, 12) for _ in range(2)))
        return {'prog': prog, 'users': users, 'ops': ops, 'store': store,
                'setfails': fails}

    def step(self, rng, ivs):
        if not ivs or rng.random() < 0.4:
            return rng.choice(STEPS)
        iv = rng.choice(ivs)
        return rng.choice([iv + 0.07, iv + 0.3, iv - 0.07, iv * 0.51 + 0.01,
                           iv * 0.77, iv * 1.9, -iv * 0.49])

    def repair(self, plan):
        tmpl.repair(plan['prog'])
        return plan

    def run(self, plan, res, workdir):
        store = None
        if plan['store'] != 'memory':
            store = HarnessStore(plan['store'] == 'shared-sized')
            store.lazy = plan['store'] == 'shared-lazy'
            store.fail_sets = set(plan['setfails'])
        R = rig.Rig(plan['prog'], workdir, store=store)
        counter = [0]

        def on_store(fr, key, text):
            if fr.nested:       # included templates have their own store
                return
            counter[0] += 1
            if counter[0] in plan['setfails']:
                raise StoreDown('store down at set %d' % counter[0])
        insts = []
        for i, spec in enumerate(plan['users']):
            x = R.instance('ABCD'[i], spec)
            if store is not None:
                x.ref.on_store = on_store
            insts.append(x)
        reuse = False
        try:
            for op in plan['ops']:
                if op[0] == 'clock':
                    CLOCK.advance(op[1])
                    if op[1] < 0:
                        res.fault('clock-back')
                    else:
                        res.fault('clock-forward')
                    res.log('clock %s' % op[1])
                elif op[0] == 'fill':
                    x = insts[op[1]]
                    self.fill(x, res)
                elif op[0] == 'refresh':
                    self.refresh(insts[op[1]], op, res)
                elif op[0] == 'evict':
                    self.evict(insts, store, op[1], res)
        except tmpl.Ambiguous as e:
            res.probe('ambiguous')
            res.log('not judged further: %s' % e)
        for x in insts:
            x.finish(res)
            s = x.ref.stats
            if s.get('cache-hit') and s.get('cache-miss', 0) > 1:
                reuse = True
        if store is not None:
            res.fault('store-set-failed', store.failed)
        res.nontrivial = reuse

    def fill(self, x, res):
        now = CLOCK.now
        x.begin()
        real = x.real_fill()
        want = x.ref_fill(now)
        x.judge(real, want, res)
        if x.u.counts != x.ref.u.counts:
            a, b = x.u.counts, x.ref.u.counts
            raise Violation(
                'wrong-recomputation', 'in fill %d of %s: %s' % (
                    x.nfill, x.tag, '; '.join(
                        '%s was computed %d times so far, expected %d'
                        % (k, a.get(k, 0), b.get(k, 0))
                        for k in sorted(set(a) | set(b))
                        if a.get(k, 0) != b.get(k, 0))))

    def refresh(self, x, op, res):
        cid, item = op[2], op[3]
        if cid is None:
            args = ()
        elif cid == -1:
            args = ('no_such_region',)
        else:
            args = (op[4],)
            if item is not None:
                args += (tmpl.VARY[item],)
        res.log('refresh %s %r' % (x.tag, args))
        res.checks += 1
        try:
            if len(op) > 5 and op[5]:
                reg = x.t.getCacheRegion(args[0], create=False)
                if reg is not None and item is not None:
                    reg.getCacheItem(args[1]).clear()
                elif reg is not None:
                    reg.clear()
            else:
                x.t.refreshCache(*args)
        except Exception as e:
            raise Violation('refresh-failed', 'refreshCache%r raised %s: %s'
                            % (args, type(e).__name__, e))
        c = x.ref.inst.caches
        for key in list(c):
            if cid is None or (key[0] == cid and (
                    item is None or key[1] == tmpl.VARY[item])):
                del c[key]
                res.probe('refresh-hit')

    def evict(self, insts, store, cid, res):
        if store is None:
            return
        prefix = '' if cid is None else '{c%d:' % cid
        n = store.evict(prefix)
        res.log('evict %s: %d' % (cid, n))
        res.fault('eviction', n)
        for x in insts:
            for key, e in list(x.ref.inst.caches.items()):
                if e[0].startswith(prefix):
                    del x.ref.inst.caches[key]


PROP = C01()
