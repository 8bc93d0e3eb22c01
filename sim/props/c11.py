"""C11: cache stores keep the set/add/replace/delete/get contract."""
import sys
import time
import types

from .. import sched
from ..clock import CLOCK
from ..engine import Prop, Violation

KEYS = ['k', 'K', 'k\xe9', '']
VALUES = ['a', 'b', 'c', '', 0, 'long' * 5, ['l']]


class ServerError(Exception):
    pass


class Server(object):
    """The simulated external cache server."""

    def __init__(self):
        self.d = {}
        self.count = 0
        self.faults = {}
        self.fired = {}
        self.servers = None

    def op(self):
        s = sched.SCHED
        if s is not None:
            s.point('server')
        self.count += 1
        kind = self.faults.get(self.count)
        if kind:
            self.fired[kind] = self.fired.get(kind, 0) + 1
        if kind == 'raise':
            raise ServerError('client error at operation %d' % self.count)
        return kind

    def live(self, key):
        if key not in self.d:
            return False
        exp = self.d[key][1]
        if exp and CLOCK.now > exp:
            del self.d[key]
            return False
        return True


SERVER = None


class Client(object):
    """python-memcached's Client, as far as its documentation promises."""

    def __init__(self, servers, debug=0):
        if isinstance(servers, str):
            raise TypeError('servers must be a list of strings')
        for s in servers:
            if not isinstance(s, str) or ':' not in s:
                raise TypeError('bad server %r' % (s,))
        SERVER.servers = list(servers)

    def set(self, key, val, time=0, min_compress_len=0):
        if SERVER.op() == 'down':
            return 0
        SERVER.d[key] = (val, time)
        return True

    def add(self, key, val, time=0, min_compress_len=0):
        if SERVER.op() == 'down' or SERVER.live(key):
            return 0
        SERVER.d[key] = (val, time)
        return True

    def replace(self, key, val, time=0, min_compress_len=0):
        if SERVER.op() == 'down' or not SERVER.live(key):
            return 0
        SERVER.d[key] = (val, time)
        return True

    def delete(self, key, time=None, noreply=False):
        if SERVER.op() == 'down' or not SERVER.live(key):
            return 0
        del SERVER.d[key]
        return 1

    def get(self, key, default=None):
        if SERVER.op() == 'down' or not SERVER.live(key):
            return None
        return SERVER.d[key][0]

    def flush_all(self):
        if SERVER.op() == 'down':
            return
        SERVER.d.clear()


class Model(object):
    """What a store should answer; state is a dict plus the time."""

    @staticmethod
    def step(state, op):
        """state: (frozenset of (key, idx, exp), now).  Returns (result, new
        state).  Values are compared by index."""
        items, now = state
        kind = op[0]
        if kind == 'clock':
            return 'ok', (items, now + op[1])
        if kind == 'clear':
            return 'ok', Model.pack({}, now)
        key = op[1]
        d = {k: (v, e) for k, v, e in items if k != key or not e or now <= e}
        if kind == 'get':
            if key in d:
                return ('value', d[key][0]), Model.pack(d, now)
            return 'KeyError', Model.pack(d, now)
        if kind == 'delete':
            if key in d:
                del d[key]
                return 'ok', Model.pack(d, now)
            return 'KeyError', Model.pack(d, now)
        if kind == 'add' and key in d:
            return 'Error', Model.pack(d, now)
        if kind == 'replace' and key not in d:
            return 'Error', Model.pack(d, now)
        d[key] = (op[2], op[3])
        return 'ok', Model.pack(d, now)

    @staticmethod
    def back(state):
        """Before the clock goes back: entries that have expired may or may
        not have been dropped already."""
        items, now = state
        out = {state}
        for it in items:
            if it[2] and it[2] < now:
                out |= {(x[0] - {it}, now) for x in out}
        return out

    @staticmethod
    def pack(d, now):
        return (frozenset((k, v, e) for k, (v, e) in d.items()), now)


def do(store, op, values):
    from Cheetah.CacheStore import Error
    kind = op[0]
    if kind == 'clock':
        CLOCK.advance(op[1])
        return 'ok'
    try:
        if kind == 'clear':
            store.clear()
            return 'ok'
        if kind == 'get':
            v = store.get(op[1])
            for i, x in enumerate(values):
                if x is v:
                    return ('value', i)
            return ('value', 'foreign %r' % (v,))
        if kind == 'delete':
            store.delete(op[1])
            return 'ok'
        args = [op[1], values[op[2]]]
        if op[3]:
            args.append(op[3])
        elif op[4]:
            args.append(0)
        getattr(store, kind)(*args)
        return 'ok'
    except KeyError:
        return 'KeyError'
    except Error:
        return 'Error'
    except (sched.Deadlock, sched.StepLimit):
        raise
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def linearizable(history, start):
    """history: list of (invoke, response, op, result).  Seeks an order that
    respects real time and that the model explains."""
    n = len(history)
    seen = set()

    def rec(done, state):
        if len(done) == n:
            return True
        key = (done, state)
        if key in seen:
            return False
        seen.add(key)
        first = min(h[1] for i, h in enumerate(history) if i not in done)
        for i, (inv, resp, op, result) in enumerate(history):
            if i in done or inv > first:
                continue
            want, new = Model.step(state, op)
            if want == result and rec(done | {i}, new):
                return True
        return False
    return rec(frozenset(), start)


class C11(Prop):
    id = 'C11'
    quick_runs = 30000
    thorough_runs = 400000
    quick_cap = 45
    rule = ('a seed picks a store (in-memory; or server-backed over a '
            'simulated cache server that evicts, refuses and raises), and '
            'either a sequential history of operations and clock movements '
            'or two to three threads with an operation list each, switched '
            'at bytecode level by a seeded schedule. Non-trivial: some '
            'operation was refused or found nothing, and some value was '
            'returned.')
    measure = ('distinct event logs (operation, result, in order of '
               'invocation) together with the points of the thread switches')
    real = ['MemoryCacheStore', 'MemcachedCacheStore']
    stubbed = ['clock', 'thread scheduler and locks', 'the memcache client '
               'module and the server behind it']
    assumptions = ['keys are strings; times are 0 or absolute',
                   'a set() refused by the server is not required to raise',
                   'the instant of expiry itself is not judged']

    def gen(self, rng, tier):
        threaded = rng.random() < 0.55
        store = rng.choice(['memory', 'memory', 'server'])
        keys = KEYS[:rng.choice([1, 1, 2, 4])]

        def op():
            x = rng.random()
            k = rng.choice(keys)
            if x < 0.3:
                return ['get', k]
            if x < 0.42:
                return ['delete', k]
            if x < 0.46:
                return ['clear']
            if x < 0.58:
                return ['clock', rng.choice([1.3, 7.7, 40.9] if threaded else
                                            [1.3, 7.7, 40.9, -5.2])]
            exp = rng.choice([0, 0, 5.5, 20.5, 60.5])
            if exp and not threaded and rng.random() < 0.15:
                exp = -exp
            return [rng.choice(['set', 'add', 'replace']), k,
                    rng.randrange(len(VALUES)), exp, rng.randrange(2)]
        plan = {'store': store, 'servers': rng.choice([0, 0, 1, 2])}
        if threaded:
            n = rng.choice([2, 2, 3])
            plan['ops'] = [op() for _ in range(rng.randrange(0, 3))]
            plan['threads'] = [[op() for _ in range(rng.randrange(1, 5))]
                               for _ in range(n)]
            plan['sched'] = [[rng.randrange(n), rng.randrange(n)]] + [
                [rng.choice([rng.randrange(1, 8), rng.randrange(1, 40)]),
                 rng.randrange(n)] for _ in range(rng.randrange(1, 14))]
        else:
            plan['ops'] = [op() for _ in range(rng.randrange(4, 26))]
        plan['faults'] = []
        if store == 'server':
            for _ in range(rng.randrange(0, 4)):
                plan['faults'].append(
                    [rng.randrange(1, 20),
                     rng.choice(['down', 'raise'] if not threaded
                                else ['raise'])])
            if not threaded:
                for _ in range(rng.randrange(0, 3)):
                    plan['ops'].insert(rng.randrange(len(plan['ops'])),
                                       ['evict', rng.choice(keys)])
        return plan

    def make(self, plan):
        global SERVER
        from Cheetah import CacheStore
        if plan['store'] == 'memory':
            return CacheStore.MemoryCacheStore()
        SERVER = Server()
        SERVER.faults = dict((n, k) for n, k in plan['faults'])
        m = types.ModuleType('memcache')
        m.Client = Client
        sys.modules['memcache'] = m
        want = {0: None, 1: ['10.0.0.1:11211'],
                2: ('10.0.0.1:11211', '10.0.0.2:11211')}[plan['servers']]
        if want is None:
            s = CacheStore.MemcachedCacheStore()
            want = ['127.0.0.1:11211']
        else:
            s = CacheStore.MemcachedCacheStore(want)
        if SERVER.servers != list(want):
            raise Violation('wrong-servers', 'the client was given %r'
                            % (SERVER.servers,))
        return s

    @staticmethod
    def absolute(op):
        if len(op) > 3 and op[3]:
            return op[:3] + [CLOCK.now + op[3]] + op[4:]
        return op

    def run(self, plan, res, workdir):
        store = self.make(plan)
        values = list(VALUES)
        states = {Model.pack({}, CLOCK.now)}
        results = set()
        for op in plan['ops']:
            op = self.absolute(op)
            if op[0] == 'evict':
                if SERVER.d.pop(op[1], None) is not None:
                    res.fault('server-eviction')
                states = {(frozenset(x for x in st[0] if x[0] != op[1]),
                           st[1]) for st in states}
                continue
            nextfault = None
            if plan['store'] == 'server' and op[0] != 'clock':
                nextfault = SERVER.faults.get(SERVER.count + 1)
            got = do(store, op, values)
            want = None
            if nextfault is None:
                if op[0] == 'clock' and op[1] < 0:
                    for st in list(states):
                        states |= Model.back(st)
                outcomes = [Model.step(st, op) for st in sorted(
                    states, key=repr)]
                want = outcomes[0][0]
                keep = {new for w, new in outcomes if w == got}
                if keep:
                    states = keep
                    want = got
            elif nextfault == 'raise':
                want = 'ServerError: client error at operation %d' \
                    % SERVER.count
            else:       # down: nothing stored, nothing found
                want = {'get': 'KeyError', 'delete': 'KeyError',
                        'add': 'Error', 'replace': 'Error', 'set': 'ok',
                        'clear': 'ok'}[op[0]]
            res.checks += 1
            res.log('%s -> %s' % (op, got))
            if op[0] == 'clock':
                res.fault('clock-forward' if op[1] > 0 else 'clock-back')
            results.add(got if isinstance(got, str) else 'value')
            if got != want:
                raise Violation('wrong-answer', '%s gave %s, expected %s '
                                '(after %s)' % (op, got, want,
                                                res.events[-6:-1]))
        if 'threads' in plan:
            self.threads(plan, res, store, values, states, results)
        if plan['store'] == 'server':
            for k, n in SERVER.fired.items():
                res.fault('server-' + k, n)
        res.nontrivial = 'value' in results and bool(
            results & {'KeyError', 'Error'})

    def threads(self, plan, res, store, values, states, results):
        state = list(states)[0]     # no clock-back in threaded runs
        s = sched.Scheduler(plan, opcodes=True)
        history = []
        seq = [0]

        def tick():
            seq[0] += 1
            return seq[0]

        def body(ops):
            def fn(t):
                for op in ops:
                    s.point('user')
                    op = self.absolute(op)
                    a = tick()
                    got = do(store, op, values)
                    history.append((a, tick(), op, got))
            return fn
        for ops in plan['threads']:
            s.spawn(body([o for o in ops]))
        s.run()
        res.trail = s.trail
        res.fault('thread-switch', s.switches)
        for t in s.threads:
            if t.exc is not None:
                raise Violation(
                    'deadlock' if isinstance(t.exc, sched.Deadlock)
                    else 'unexpected-error', 'thread %s ended with %s: %s'
                    % (t.name, type(t.exc).__name__, t.exc))
        history.sort()
        for a, b, op, got in history:
            res.log('%d-%d %s -> %s' % (a, b, op, got))
            results.add(got if isinstance(got, str) else 'value')
            if isinstance(got, str) and got not in ('ok', 'KeyError',
                                                    'Error') \
                    and not got.startswith('ServerError: '):
                raise Violation('unexpected-error', '%s gave %s' % (op, got))
        res.checks += 1
        hist = [h for h in history
                if not str(h[3]).startswith('ServerError: ')]
        if not linearizable(hist, state):
            raise Violation('not-linearizable', 'no order of these '
                            'operations explains their results: %s'
                            % (hist,))
        # what is left in the store must be explained as well
        final = []
        for k in KEYS:
            if plan['store'] == 'server':
                SERVER.faults = {}
            final.append((tick(), tick(), ['get', k],
                          do(store, ['get', k], values)))
        res.checks += 1
        if not linearizable(hist + final, state):
            raise Violation('not-linearizable', 'no order of these '
                            'operations explains what they left in the '
                            'store: %s, %s' % (hist, final))


PROP = C11()
