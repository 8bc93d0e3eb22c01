"""C13: failing namespaces never corrupt a name lookup."""
import _thread
import collections.abc
import copy
import gc
import signal
import sys
import types

from ..engine import Prop, Violation

EXCS = ['ValueError', 'KeyError', 'AttributeError', 'LookupError', 'NotFound',
        'TypeError', 'IndexError', 'MemoryError', 'KeyboardInterrupt',
        'SystemExit', 'GeneratorExit', 'StopIteration', 'RecursionError',
        'Own', 'OwnBase', 'OwnNotFound']
KEYS = ['a', 'b', 'c', 'key', 'x1', 'long_name_of_a_thing']
TOP = ['a', 'b', 'c', 'key']
GLOBAL_ONLY = 'in_globals'


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


class Leaf(object):
    """A value that is not looked into."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Leaf(%s)' % self.tag


class World(object):
    """The objects of one run, their hooks and the fault that is armed."""

    def __init__(self, plan):
        self.plan = plan
        self.objs = {}
        self.kids = {}
        self.events = []
        self.fault = None
        self.fired = None
        self.depth = 0
        self.spare = Leaf('spare')
        self.nested = None
        self.tops = [self.build(n) for n in plan['ns']]

    def hook(self, kind, nid, key):
        if self.depth:
            return None
        self.events.append((kind, nid, key))
        f = self.fault
        if f is None or len(self.events) != f['n']:
            return None
        self.fired = (kind, nid, key)
        if f['act'] == 'raise':
            raise f['exc']
        if f['act'] == 'nested':
            self.depth += 1
            try:
                self.nested = f['go']()
            finally:
                self.depth -= 1
        if f['act'] == 'swap':
            return self.spare
        if f['act'] == 'drop':
            # the namespaces let go of everything while it is in use
            for d in list(self.kids.values()):
                d.clear()
            self.listed.clear()
            gc.collect()
        return None

    def build(self, n):
        k, nid = n['k'], n['id']
        kids = dict((key, self.build(c)) for key, c in sorted(
            n.get('kids', {}).items()))
        hook = self.hook
        self.kids[nid] = kids
        if k == 'leaf':
            o = Leaf(nid)
        elif k in ('none', 'zero', 'empty'):
            o = {'none': None, 'zero': 0, 'empty': ''}[k]
        elif k == 'str':
            o = 'text%d' % nid
        elif k == 'dict':
            o = self.kids[nid] = kids
        elif k == 'dictsub':
            class D(dict):
                def __getitem__(s, key):
                    r = hook('getitem', nid, key)
                    return dict.__getitem__(s, key) if r is None else r
            o = self.kids[nid] = D(kids)
        elif k in ('map', 'attrmap'):
            class M(object):
                def __getitem__(s, key):
                    r = hook('getitem', nid, key)
                    return kids[key] if r is None else r

                def __contains__(s, key):
                    r = hook('contains', nid, key)
                    return key in kids if r is None else True

                def __len__(s):
                    return len(kids)

                def __iter__(s):
                    return iter(kids)

                if k == 'attrmap':
                    def __getattr__(s, key):
                        hook('getattr', nid, key)
                        raise AttributeError(key)
            collections.abc.Mapping.register(M)
            o = M()
        elif k == 'obj':
            class O(object):
                def __getattr__(s, key):
                    if key.startswith('__') or key == 'mro':
                        raise AttributeError(key)
                    r = hook('getattr', nid, key)
                    if r is not None:
                        return r
                    if key not in kids:
                        raise AttributeError(key)
                    return kids[key]
            o = O()
        elif k == 'plain':
            class P(object):
                pass
            o = P()
            o.__dict__.update(kids)
            self.kids[nid] = o.__dict__
        elif k == 'prop':
            def prop(key):
                def get(s):
                    r = hook('getattr', nid, key)
                    return kids[key] if r is None else r
                return property(get)
            C = type('C%d' % nid, (object,), dict((key, prop(key))
                                                  for key in kids))
            o = C()
        elif k in ('fn', 'meth', 'inst', 'cls'):
            # calling any of them gives kids['()']
            def fn():
                r = hook('call', nid, '()')
                return kids['()'] if r is None else r
            if k == 'fn':
                o = fn
            elif k == 'meth':
                o = types.MethodType(lambda s: fn(), Leaf('self'))
            elif k == 'inst':
                class I(object):
                    def __call__(s):
                        return fn()
                o = I()
            else:
                o = type('K%d' % nid, (object,), {})
        elif k == 'kbi':
            o = types.MethodType(_thread.interrupt_main, signal.SIGINT)
        else:
            raise AssertionError(k)
        self.objs[nid] = o
        return o


# ------------------------------------------------------------ reference

def has(n, key):
    return key in n.get('kids', {}) and key != '()'


def called(n, ex):
    """The node a callable stands for."""
    while ex and n['k'] in ('fn', 'meth'):
        return n['kids']['()'], True
    if ex and n['k'] == 'kbi':
        return None, True
    return n, False


def resolve(tops, name, ex, start=None):
    """('ok', node, path) or ('notfound', path) or ('int', path); the path
    lists (node id, key) per chunk and (node id, '()') per call."""
    chunks = name.split('.')
    cur = start
    if cur is None:
        for n in tops:
            if has(n, chunks[0]):
                cur = n
                break
        else:
            return ('notfound', None, [])
    path = []
    for c in chunks:
        if cur['k'] in ('str', 'empty') and c == 'upper':
            path.append((cur['id'], c))
            cur = {'k': 'upper' if ex else 'any', 'id': -cur['id'],
                   's': 'TEXT%d' % cur['id'] if cur['k'] == 'str' else ''}
            continue
        if not has(cur, c):
            return ('notfound', None, path)
        path.append((cur['id'], c))
        nid = cur['kids'][c]['id']
        cur, was = called(cur['kids'][c], ex)
        if was:
            path.append((nid, '()'))
        if cur is None:
            return ('int', None, path)
    return ('ok', cur, path)


class C13(Prop):
    id = 'C13'
    quick_runs = 18000
    thorough_runs = 300000
    quick_cap = 50
    pure_share = 0.2
    rule = ('a seed makes a search list of nested dictionaries, mappings, '
            'objects, properties, functions and methods, and a list of '
            'lookups through every entry point; each is first done without '
            'faults, then again with a fault at one of its counted accesses '
            'to user code: an exception, a changed answer, a nested lookup, '
            'all namespaces dropped while in use, or an interrupt pending '
            'when user code returns. Non-trivial: a fault fired after the '
            'name had been found.')
    measure = 'distinct complete event logs (accesses, faults and outcomes)'
    real = ['the C name lookup built from the working tree, and the pure '
            'Python one for a fifth of the runs', 'CPython reference '
            'counts']
    stubbed = ['namespaces (user code)']
    assumptions = ['an exception from the test whether a name is present may '
                   'count as absence; the last access of a fault-free lookup '
                   'to an object is the one that fetches the value',
                   'an AttributeError out of an attribute getter means the '
                   'attribute is absent']

    # ------------------------------------------------------------ plans
    def node(self, rng, depth):
        self.nid += 1
        n = {'id': self.nid}
        if depth == 0:
            n['k'] = rng.choice(['leaf'] * 5 + ['str', 'str', 'none', 'zero',
                                                'empty'])
            return n
        n['k'] = rng.choice(['dict', 'dict', 'dictsub', 'map', 'attrmap',
                             'obj', 'obj', 'plain', 'prop', 'fn', 'meth',
                             'inst', 'cls', 'leaf', 'kbi', 'none', 'empty'])
        if n['k'] in ('fn', 'meth'):
            n['kids'] = {'()': self.node(rng, depth - 1)}
        elif n['k'] in ('dict', 'dictsub', 'map', 'attrmap', 'obj', 'plain',
                        'prop'):
            n['kids'] = dict((key, self.node(rng, depth - 1)) for key in
                             rng.sample(KEYS, rng.choice([1, 2, 2, 3])))
        return n

    def top(self, rng, depth):
        self.nid += 1
        return {'id': self.nid,
                'k': rng.choice(['dict', 'dict', 'dictsub', 'map', 'attrmap',
                                 'obj', 'plain', 'prop']),
                'kids': dict((key, self.node(rng, depth)) for key in
                             rng.sample(TOP, rng.choice([1, 2, 3])))}

    def path(self, rng, n, ex, stop=0.15):
        """A dotted name below a namespace."""
        out = []
        while n.get('kids') and '()' not in n['kids'] and len(out) < 13:
            key = rng.choice(sorted(n['kids']))
            if rng.random() < 0.06:
                out.append(rng.choice(KEYS))
                break
            out.append(key)
            n, _ = called(n['kids'][key], ex)
            if n is None:
                if rng.random() < 0.6:
                    out.append(rng.choice(KEYS))
                break
            if rng.random() < stop:
                break
        if n is not None and n['k'] == 'str' and rng.random() < 0.6:
            out.append('upper')
        return '.'.join(out)

    def gen(self, rng, tier):
        self.nid = 0
        tops = [self.top(rng, rng.choice([1, 2, 3, 4]))
                for _ in range(rng.choice([1, 2, 2, 3]))]
        ops = []
        for _ in range(rng.randrange(1, 5 if tier == 'quick' else 9)):
            ex = rng.random() < 0.7
            n = rng.choice(tops)
            how = rng.choice(['search', 'search', 'frame_search',
                              'frame_search', 'name', 'key', 'frame'])
            name = self.path(rng, n, ex) or 'a'
            if rng.random() < 0.05:
                name = rng.choice(['nowhere', 'a.' * 20 + 'b', GLOBAL_ONLY,
                                   name + '.q.r'])
            if how == 'key':
                name = name.split('.')[0]
            op = {'how': how, 'name': name, 'ex': ex, 'ns': tops.index(n),
                  'form': rng.choice(['list', 'tuple', 'gen', 'list']),
                  'local': rng.randrange(2), 'faults': []}
            for _ in range(rng.choice([1, 2, 3, 4])):
                op['faults'].append({
                    'at': rng.choice([-1, -1, -2, -3, rng.randrange(12)]),
                    'act': rng.choice(['raise'] * 8 + ['nested', 'swap',
                                                       'drop']),
                    'exc': rng.choice(EXCS),
                    'other': self.path(rng, rng.choice(tops), ex) or 'b'})
            ops.append(op)
        return {'ns': tops, 'ops': ops}

    def repair(self, plan):
        if not plan['ns']:
            return None
        for op in plan['ops']:
            op['ns'] = min(op['ns'], len(plan['ns']) - 1)
        return plan

    def simplify(self, plan):
        def nodes(n, path):
            for key in sorted(n.get('kids', {})):
                if key != '()':
                    yield path + (key,)
                for x in nodes(n['kids'][key], path + (key,)):
                    yield x
        for i, t in enumerate(plan['ns']):
            for path in nodes(t, ()):
                c = copy.deepcopy(plan)
                n = c['ns'][i]
                for key in path[:-1]:
                    n = n['kids'][key]
                del n['kids'][path[-1]]
                yield c

    # ------------------------------------------------------------ running
    def lookup(self, w, op):
        """Do the lookup; ('ok', value) or ('exc', exception)."""
        from Cheetah import NameMapper as NM
        name, ex = op['name'], op['ex']
        if op['form'] == 'list':
            sl = w.listed
        elif op['form'] == 'tuple':
            sl = tuple(w.listed)
        else:
            class Lazy(object):
                def __iter__(s):
                    return iter(list(w.listed))
            sl = Lazy()
        try:
            if op['how'] == 'search':
                return ('ok', NM.valueFromSearchList(sl, name, ex))
            if op['how'] == 'frame_search':
                return ('ok', self.frames['search' + str(op['local'])](
                    NM.valueFromFrameOrSearchList, sl, name, ex,
                    w.listed[0] if w.listed else None))
            if op['how'] == 'frame':
                # the name starts at a local variable
                return ('ok', self.frames['frame'](
                    NM.valueFromFrame, name, ex, w.tops[op['ns']]))
            if op['how'] == 'name':
                return ('ok', NM.valueForName(w.tops[op['ns']], name, ex))
            return ('ok', NM.valueForKey(w.tops[op['ns']], name))
        except BaseException as e:
            return ('exc', e)

    FRAMES = '''
def search0(_f, _sl, _name, _ex, _first):
    return _f(_sl, _name, _ex)
def search1(_f, _sl, _name, _ex, _first):
    unused = _first
    return _f(searchList=_sl, name=_name, executeCallables=_ex)
def frame(_f, _name, _ex, thelocal):
    return _f('thelocal.' + _name, _ex)
in_globals = 'global value'
'''

    def expect(self, plan, op):
        tops = plan['ns']
        if op['how'] in ('search', 'frame_search'):
            r = resolve(tops, op['name'], op['ex'])
            if op['how'] == 'frame_search' and r[0] == 'notfound' \
                    and not r[2] and op['name'] == GLOBAL_ONLY:
                return ('global', None, [])
            return r
        ex = op['ex'] and op['how'] != 'key'
        return resolve(tops, op['name'], ex, tops[op['ns']])

    def make_exc(self, name):
        from Cheetah.NameMapper import NotFound
        if name == 'NotFound':
            return NotFound('sim not found')
        if name == 'OwnNotFound':
            return type('OwnNotFound', (NotFound,), {})('sim own')
        cls = {'Own': Own, 'OwnBase': OwnBase}.get(name)
        if cls is None:
            import builtins
            cls = getattr(builtins, name)
        return cls('sim %s' % name)

    def refs(self, w):
        return dict((nid, sys.getrefcount(o)) for nid, o in w.objs.items())

    def matches(self, w, want, got, op):
        from Cheetah.NameMapper import NotFound
        if len(op['name'].split('.')) > 14 and not self.pure:
            return got[0] == 'exc' and \
                type(got[1]).__name__ == 'TooManyPeriodsInName'
        if want[0] == 'notfound':
            return got[0] == 'exc' and type(got[1]) is NotFound
        if want[0] == 'int':
            return got[0] == 'exc' and type(got[1]) is KeyboardInterrupt
        if want[0] == 'global':
            return got == ('ok', 'global value')
        if got[0] != 'ok':
            return False
        n = want[1]
        if n['k'] == 'upper':
            return got[1] == n['s']
        if n['k'] == 'any':
            return callable(got[1])
        return got[1] is w.objs[n['id']]

    def say(self, got):
        if got[0] == 'exc':
            return '%s: %s' % (type(got[1]).__name__, got[1])
        return '%s %s' % (type(got[1]).__name__, got[1]) \
            if isinstance(got[1], (str, Leaf)) else type(got[1]).__name__

    def clean(self, got):
        if got is not None and got[0] == 'exc':
            got[1].__traceback__ = None
            got[1].__context__ = None
            got[1].__cause__ = None
            if isinstance(got[1], AttributeError):
                got[1].obj = None       # filled in by the interpreter
                got[1].name = None

    def run(self, plan, res, workdir):
        from Cheetah import NameMapper as NM
        self.pure = not NM.C_VERSION
        signal.signal(signal.SIGINT, signal.default_int_handler)
        self.frames = {'__builtins__': __builtins__}
        exec(compile(self.FRAMES, '<frames>', 'exec'), self.frames)
        for oi, op in enumerate(plan['ops']):
            w = World(plan)
            w.listed = list(w.tops)
            self.one(plan, op, oi, w, res)
            w.kids = w.objs = w.tops = None

    def one(self, plan, op, oi, w, res):
        want = self.expect(plan, op)
        what = 'lookup %d (%s of %r)' % (oi, op['how'], op['name'])
        # fault-free, twice: result, trace, and no reference changes
        first = self.lookup(w, op)
        trace = list(w.events)
        res.checks += 1
        res.log('%s -> %s %s' % (what, self.say(first), trace))
        if not self.matches(w, want, first, op):
            raise Violation('wrong-value', '%s gave %s, expected %s'
                            % (what, self.say(first), want[0]))
        if want[0] == 'int':
            res.fault('interrupt-pending')
        self.clean(first)
        del first
        before = self.refs(w)
        for _ in range(3):
            r = self.lookup(w, op)
            self.clean(r)
            del r
        self.audit(w, before, what + ' without faults')
        if not trace:
            return
        fetches = self.fetches(want[2], trace)
        for fi, f in enumerate(op['faults']):
            at = f['at'] % len(trace) if f['at'] >= 0 else \
                max(0, len(trace) + f['at'])
            self.faulted(plan, op, w, want, trace, fetches, f, at,
                         '%s, fault %d (%s %s at access %d: %s)'
                         % (what, fi, f['act'], f['exc']
                            if f['act'] == 'raise' else '', at + 1,
                            trace[at]), res)

    @staticmethod
    def fetches(path, trace):
        """Indices of the accesses that fetch a value on the way."""
        out = set()
        pos = -1
        for nid, key in path:
            mine = [i for i, e in enumerate(trace)
                    if e[1] == nid and e[2] == key and i > pos
                    and e[0] != 'contains']
            if mine:
                out.add(mine[-1])
                pos = mine[-1]
        return out

    def audit(self, w, before, what):
        after = self.refs(w)
        bad = dict((k, (before[k], after[k])) for k in before
                   if before[k] != after[k])
        if bad:
            raise Violation('reference-count', '%s: reference counts of '
                            'objects %s changed from %s to %s' % (
                                what, sorted(bad),
                                [bad[k][0] for k in sorted(bad)],
                                [bad[k][1] for k in sorted(bad)]))

    def faulted(self, plan, op, w, want, trace, fetches, f, at, what, res):
        from Cheetah.NameMapper import NotFound
        exc = self.make_exc(f['exc'])
        fault = {'n': at + 1, 'act': f['act'], 'exc': exc}
        other = dict(op, name=f['other'], how='search')
        if f['act'] == 'nested':
            fault['go'] = lambda: self.lookup(w, other)
        saved = dict((nid, dict(d)) for nid, d in w.kids.items()) \
            if f['act'] == 'drop' else None
        objs = w.objs
        # drop and swap change the objects themselves: audited once restored
        excref = sys.getrefcount(exc)
        before = self.refs(w)
        repeat = 1 if f['act'] == 'drop' else 4
        for k in range(repeat):
            w.events, w.fired, w.fault = [], None, fault
            if f['act'] == 'drop':
                # nobody else holds the objects during the lookup
                w.objs = None
                tops, w.tops = w.tops, None
                self.dropped(w, op, plan, what, res, objs, tops, saved)
                w.objs, w.tops = objs, tops
                w.listed = list(tops)
                del tops
                break
            got = self.lookup(w, op)
            w.fault = None
            res.checks += 1
            if w.fired is None:
                raise Violation('not-repeatable', '%s: the access was not '
                                'made again; accesses now: %s'
                                % (what, w.events))
            if k == 0:
                res.log('%s -> %s' % (what, self.say(got)))
                res.fault('user-' + f['act'])
                if at in fetches:
                    res.nontrivial = True
                    res.probe('fault-after-found')
            self.judge(w, op, want, trace, fetches, f, at, exc, got, what,
                       plan, other)
            self.clean(got)
            self.clean(w.nested)
            w.nested = None
            del got
        self.clean(('exc', exc))
        if f['act'] != 'drop':
            self.audit(w, before, what)
        del before
        if sys.getrefcount(exc) != excref:
            raise Violation('reference-count', '%s: references to the '
                            'exception: %d before, %d after'
                            % (what, excref, sys.getrefcount(exc)))
        again = self.lookup(w, op)
        res.checks += 1
        if not self.matches(w, want, again, op):
            raise Violation('later-lookup', 'after %s the same lookup gives '
                            '%s' % (what, self.say(again)))
        self.clean(again)

    def dropped(self, w, op, plan, what, res, objs, tops, saved):
        """Everything is let go of in the middle of the lookup; afterwards
        the namespaces are put together again."""
        want = self.expect(plan, op)
        keep = dict(objs)
        objs.clear()
        op2 = op
        if op['how'] in ('name', 'key', 'frame'):
            w.tops = tops
        w.objs = {}
        got = self.lookup(w, op2)
        w.fault = None
        res.fault('user-drop')
        res.checks += 1
        from Cheetah.NameMapper import NotFound
        res.log('%s -> %s' % (what, self.say(got)))
        if got[0] == 'exc' and not isinstance(
                got[1], (NotFound, KeyError, AttributeError,
                         KeyboardInterrupt)) \
                and type(got[1]).__name__ != 'TooManyPeriodsInName':
            raise Violation('wrong-error', '%s: %s' % (what, self.say(got)))
        self.clean(got)
        del got
        objs.update(keep)
        for nid, d in saved.items():
            w.kids[nid].update(d)

    def judge(self, w, op, want, trace, fetches, f, at, exc, got, what, plan,
              other):
        from Cheetah.NameMapper import NotFound
        kind = trace[at][0]
        if f['act'] == 'raise':
            if got[0] == 'exc' and got[1] is exc:
                return
            if at in fetches:
                if isinstance(exc, AttributeError) and kind == 'getattr' \
                        and got[0] == 'exc' and type(got[1]) is NotFound:
                    return
                raise Violation(
                    'error-swallowed' if got[0] == 'ok' else 'wrong-error',
                    '%s: the error did not reach the caller; the lookup '
                    'gave %s' % (what, self.say(got)))
            # the test for presence: absent, or ignored
            if got[0] == 'exc' and type(got[1]) not in (
                    NotFound, KeyboardInterrupt):
                raise Violation('wrong-error', '%s: the lookup raised %s'
                                % (what, self.say(got)))
            return
        if f['act'] == 'nested':
            inner = self.expect(plan, other)
            if not self.matches(w, inner, w.nested, other):
                raise Violation('wrong-value', '%s: the nested lookup of %r '
                                'gave %s' % (what, other['name'],
                                             self.say(w.nested)))
            if not self.matches(w, want, got, op):
                raise Violation('wrong-value', '%s: the outer lookup gave %s'
                                % (what, self.say(got)))
            return
        if f['act'] == 'swap':
            last = op['name'].split('.')[-1]
            if self.matches(w, want, got, op):
                return
            if got[0] == 'exc':
                if type(got[1]) in (NotFound, KeyError, AttributeError,
                                    KeyboardInterrupt):
                    return
                raise Violation('wrong-error', '%s: the lookup raised %s'
                                % (what, self.say(got)))
            if got[1] is not w.spare or (trace[at][2] not in (last, '()')):
                raise Violation('wrong-value', '%s: the lookup gave %s'
                                % (what, self.say(got)))


PROP = C13()
