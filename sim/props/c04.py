"""C04: the compile cache never changes what a compile request returns."""
import copy
import io
import json
import os
import re

from .. import rig, tmpl
from ..clock import CLOCK
from ..engine import Prop, Violation, _clean as clean
from ..fs import FS

ENC = '#encoding utf-8\n'
TAILS = ['', ' ', '\n', '#slurp\n', '##c', '$u.v(2);', '#set $q = 1#$q;',
         u'\u00e9', '#cache id="k"#$u.v(3);#end cache#', '#capture z#a#end '
         'capture#$z;', ENC + u'\u00e9\u4e2d', ENC + 'e', 'E', 'e', 'e ', u'e\u0301',
         ENC + u'e\u0301', '$U', '#def m(a=1)#[$a]#end def#$m()',
         '\n#mac: abc', '\n#defmacro dm: [@src]\n#dm: abc', '\n#dm: abc']
BADS = ['#if 1', '$u.v(', '#set $x = (1 + ]', '#attr $x = 1 // 0',
        '#from simnowhere import x']
ATOMS = [['i', 1], ['f', 1.0], ['b', True], ['s', '1'], ['n', None],
         ['i', 0], ['b', False], ['s', ''], ['s', 'a'], ['s', 'A'],
         ['s', 'ab'], ['i', 12], ['s', u'\u00e9'], ['i', -1], ['i', -2],
         ['f', 0.0], ['f', 0.5], ['b8', 'a'], ['i', 2 ** 61 - 1],
         ['f', 2.0]]
KINDS = ['l', 't', 'd']
NAMES = ['optval', 'Optval', 'z', 'Z', 'ab', 'a', 'optval1']


def random_value(rng, depth=2):
    x = rng.random()
    if depth == 0 or x < 0.6:
        return rng.choice(ATOMS)
    if x < 0.9:
        return [rng.choice(KINDS), [random_value(rng, depth - 1)
                                    for _ in range(rng.randrange(0, 4))]]
    return ['set', [rng.choice(ATOMS)]]


def mutate(rng, v):
    """A value that is nearly, but not quite, the same."""
    v = json.loads(json.dumps(v))
    if v[0] == 'set':
        return ['set', [mutate(rng, v[1][0])]]
    if v[0] in KINDS and not v[1]:
        return [rng.choice([k for k in KINDS if k != v[0]]), []]
    if v[0] not in KINDS:
        same = [a for a in ATOMS if a != v and (
            str(a[1]).lower() == str(v[1]).lower()
            or build(a) == build(v) or hash(build(a)) == hash(build(v)))]
        return rng.choice(same or [a for a in ATOMS if a != v])
    x = rng.random()
    i = rng.randrange(len(v[1]))
    if x < 0.4:
        v[1][i] = mutate(rng, v[1][i])
    elif x < 0.55:
        v[0] = rng.choice([k for k in KINDS if k != v[0]])
    elif x < 0.7:
        v[1].append(v[1][i])
    elif x < 0.85 and len(v[1]) > 1:
        v[1][0], v[1][i] = v[1][i], v[1][0]
    else:
        v[1][i] = ['l', [v[1][i]]]
    return v


def build(v):
    k, x = v
    if k == 'l':
        return [build(y) for y in x]
    if k == 't':
        return tuple(build(y) for y in x)
    if k == 'set':
        return set(build(y) for y in x)
    if k == 'd':
        return dict(('k%d' % i, build(y)) for i, y in enumerate(x))
    if k == 'b8':
        return x.encode('ascii')
    return {'i': int, 'f': float, 'b': bool, 's': str,
            'n': lambda y: None}[k](x)


def has_set(v):
    return v[0] == 'set' or v[0] in KINDS and any(has_set(y) for y in v[1])


def near_globals(rng, g):
    g = json.loads(json.dumps(g))
    k = rng.choice(sorted(g))
    x = rng.random()
    if x < 0.6:
        g[k] = mutate(rng, g[k])
    elif x < 0.85:
        new = rng.choice([n for n in NAMES if n.lower() == k.lower()
                          and n not in g] or [n for n in NAMES
                                              if n not in g])
        g[new] = g.pop(k)
    else:
        new = rng.choice([n for n in NAMES if n not in g])
        g[new] = rng.choice(ATOMS)
    return g


def mac_up(src):
    return src.upper()


def mac_twice(src):
    return src + src


SETTINGS = [None, {}, {'cheetahVarStartToken': '@'},
            {'directiveStartToken': '%'}, {'useNameMapper': False},
            {'cheetahVarStartToken': '@', 'directiveStartToken': '%'},
            {'commentStartToken': '#c'}, {'cheetahVarStartToken': '%'},
            {'useNameMapper': 0}, {'useFilters': False},
            {'useAutocalling': True}, {'cheetahVarStartToken': ' @'},
            {'macroDirectives': {'mac': mac_up}},
            {'macroDirectives': {'mac': mac_twice}}]
CLASSES = [None, None, 'Ka', 'Kb', 'simmodc_a', 'KA']
MODS = [None, None, 'simmodc_a', 'simmodc_b', 'Ka', 'simmodc_A']
MAINS = [None, None, 'render_it', 'm2', 'M2']
DIMS = {'tail': len(TAILS), 'sett': len(SETTINGS),
        'cls': len(CLASSES), 'mod': len(MODS), 'main': len(MAINS),
        'base': 5, 'comp': 3, 'api': 3, 'how': 3, 'file': 2, 'pre': 9}
# what the preprocessors of a request put in place of '^pv'
PREVALS = [None, 'P1', 'P2', 'P3', 'P1', 'P2', 'P4', 'P3', 'P5']


def read(source, file):
    if source is None and hasattr(file, 'read'):
        return file.read()
    if source is None:
        with open(file) as f:
            return f.read()
    return source


class Preproc(object):
    def __init__(self, val):
        self.val = val

    def preprocess(self, source, file):
        return read(source, file).replace('^pv', self.val), None


def preprocessors(i, own=None):
    """'own': the dictionaries the caller passes in, again and again, and to
    more than one preprocessor."""
    v = PREVALS[i]
    if i > 5:
        sett, init = own or ({}, {})
        last = dict(tokens='^ ~', searchList=[{'pv': v}],
                    compilerSettings=sett)
        if i > 6:
            last['templateInitArgs'] = init
        if i < 8:
            return last
        return [dict(tokens='`& ~&', searchList=[{'pv': 'other'}],
                     compilerSettings=sett, templateInitArgs=init), last]
    if i == 3:
        return Preproc(v).preprocess
    if i == 4:
        # twice: the first one only hands the placeholder on
        return [dict(tokens=('^', '~'), namespaces={'pv': '^pv'}),
                dict(tokens='^ ~', searchList=[{'pv': v}])]
    if i == 5:
        return [Preproc(v)]
    return dict(tokens='^ ~', searchList=[{'pv': v}])


class BaseX(object):
    def hello(self):
        return 'X'


def make_env():
    """Classes the requests refer to."""
    from Cheetah.Template import Template
    from Cheetah.Compiler import Compiler

    class Loud(Compiler):
        def getModuleCode(self):
            return Compiler.getModuleCode(self).replace('Stext', 'Ltext')
    first = Loud

    class Loud(Compiler):
        def getModuleCode(self):
            return Compiler.getModuleCode(self).replace('Stext', 'Mtext')

    class Base(Template):
        def hello(self):
            return 'one'
    base1 = Base

    class Base(Template):
        def hello(self):
            return 'two'

    class ApiA(Template):
        _CHEETAH_defaultModuleGlobalsForTemplates = {'optval': 'api'}
        _CHEETAH_defaultMainMethodNameForTemplates = 'apimain'

    class ApiB(Template):
        _CHEETAH_compilerSettings = {'cheetahVarStartToken': '@'}
        _CHEETAH_defaultBaseclassForTemplates = base1
    inst = Base()
    return dict(comp=[None, first, Loud], base=[None, base1, Base, inst,
                                                'object'],
                api=[Template, ApiA, ApiB])


class C04(Prop):
    id = 'C04'
    quick_runs = 10000
    thorough_runs = 100000
    quick_cap = 60
    pure_share = 0.05
    rule = ('a seed makes a history of compile requests around one base '
            'request, each differing from it in none, one or a few of: '
            'source, class, module and main-method name, base class, '
            'compiler settings, module globals (equal values of different '
            'types), compiler class, Template class, preprocessors, file or source or '
            'file-like object; mixed with file edits and clock movement, '
            'failing sources, failing reads, and requests with the cache off '
            'or for generated source. Non-trivial: a request was served from '
            'the cache and another near-identical one was not.')
    measure = 'distinct complete event logs (requests and their results)'
    real = ['Template.compile and its cache, compiler, generated code']
    stubbed = ['clock', 'random source', 'file faults', 'user objects']
    assumptions = ['the compile with the cache off, done right after, is '
                   'what the request should give',
                   'a file whose content changes gets a modification time '
                   'it never had before']

    def gen(self, rng, tier):
        base = {k: rng.randrange(n) if rng.random() < 0.4 else 0
                for k, n in DIMS.items()}
        base['glob'] = None
        if rng.random() < 0.5:
            base['glob'] = {'optval': random_value(rng)}
            for _ in range(rng.choice([0, 0, 1, 2])):
                base['glob'][rng.choice(NAMES)] = random_value(rng)
        pool = [base]
        for _ in range(rng.randrange(1, 5)):
            r = dict(rng.choice(pool))
            for k in rng.sample(sorted(DIMS), rng.choice([1, 1, 1, 2, 3])):
                r[k] = rng.randrange(DIMS[k])
            pool.append(r)
        if base['glob'] and rng.random() < 0.7:
            # requests that differ in one nearly equal value
            for _ in range(rng.choice([1, 2, 3])):
                r = dict(base)
                r['glob'] = near_globals(rng, rng.choice(
                    [x['glob'] for x in pool if x['glob']]))
                pool.append(r)
        ops = []
        for _ in range(rng.randrange(4, 12 if tier == 'quick' else 24)):
            x = rng.random()
            if x < 0.72 or not ops:
                r = dict(rng.choice(pool))
                r['op'] = 'req'
                r['cache'] = rng.choice(['on', 'on', 'on', 'on', 'off',
                                         'use', 'code'])
                if rng.random() < 0.08:
                    r['bad'] = rng.randrange(len(BADS))
                if r['how'] == 1 and rng.random() < 0.15:
                    r['fault'] = [rng.randrange(1, 5),
                                  rng.choice(['eio', 'eacces', 'emfile'])]
                ops.append(r)
                if rng.random() < 0.3:
                    ops.append(dict(r, fault=None))
            elif x < 0.88:
                ops.append({'op': 'edit', 'file': rng.randrange(2),
                            'tail': rng.randrange(len(TAILS)),
                            'same': rng.random() < 0.3,
                            'dt': rng.choice([1.5, 0.01, 60.5, -30.25])})
            else:
                ops.append({'op': 'clock', 'dt': rng.choice([0.5, 5.5,
                                                             4000.5])})
        return {'ops': ops, 'same': rng.random() < 0.5,
                'reuse': rng.random() < 0.5}

    # ------------------------------------------------------------ running
    def source(self, tail):
        t = TAILS[tail]
        head = ''
        if t.startswith(ENC):
            head, t = ENC, t[len(ENC):]
        return head + 'Stext ^pv; #try#$optval#except#-#end try#; $u.v(1); @at; %if 1%p%end if%' + t

    def path(self, workdir, i):
        """Two files of the same name."""
        return os.path.join(workdir, *['sub'] * i + ['file.tmpl'])

    def write(self, workdir, i, tail, same_as=None):
        path = self.path(workdir, i)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            # files are read with the default encoding: ASCII only
            f.write(self.source(tail).encode('ascii', 'ignore'))
        # never the same time twice
        self.stamp += 1
        t = int((CLOCK.now + self.stamp * 0.001) * 1e6) * 1000
        if same_as is not None and same_as not in self.mtimes[i]:
            t = same_as        # as old as the other file
        while t in self.mtimes[i]:
            t += 1000
        self.mtimes[i].add(t)
        os.utime(path, ns=(t, t))
        self.files[i] = (tail, t)

    def kwargs(self, r, env, plain=False):
        kw = {}
        if r['glob']:
            kw['moduleGlobals'] = dict((k, build(v))
                                       for k, v in r['glob'].items())
        if SETTINGS[r['sett']] is not None:
            kw['compilerSettings'] = self.settings[r['sett']] \
                if self.reuse and not plain \
                else copy.deepcopy(SETTINGS[r['sett']])
        if CLASSES[r['cls']]:
            kw['className'] = CLASSES[r['cls']]
        if MODS[r['mod']]:
            kw['moduleName'] = MODS[r['mod']]
        if MAINS[r['main']]:
            kw['mainMethodName'] = MAINS[r['main']]
        if env['base'][r['base']] is not None:
            kw['baseclass'] = env['base'][r['base']]
        if env['comp'][r['comp']] is not None:
            kw['compilerClass'] = env['comp'][r['comp']]
        return kw

    def pre(self, r):
        """The preprocessors in force: none for broken sources, and none for
        sources with an encoding directive (which applies at once)."""
        t = self.files[r['file']][0] if r['how'] == 1 else r['tail']
        if r.get('bad') is not None or not TAILS[t].isascii() \
                or TAILS[t].startswith(ENC):
            return 0
        return r.get('pre', 0)

    def request(self, r, env, workdir, cache, plain=False):
        api = env['api'][r['api']]
        kw = self.kwargs(r, env, plain)
        p = self.pre(r)
        if p:
            own = None
            if self.reuse:
                # perhaps also the settings of the request itself
                own = (self.settings[r['sett']] if SETTINGS[r['sett']] in
                       ({}, {'useAutocalling': True}) else self.presett,
                       self.preinit)
            kw['preprocessors'] = Preproc(PREVALS[p]) if plain \
                else preprocessors(p, own)
        kw['useCache'] = cache in ('on', 'use', 'code')
        kw['cacheCompilationResults'] = cache in ('on', 'code')
        kw['keepRefToGeneratedCode'] = True
        if r['cache'] == 'code':
            kw['returnAClass'] = False
        if r.get('bad') is not None:
            kw['source'] = BADS[r['bad']]
        elif r['how'] == 0:
            kw['source'] = self.source(r['tail'])
        elif r['how'] == 1:
            kw['file'] = self.path(workdir, r['file'])
        else:
            f = io.StringIO()
            if r['file']:
                f = self.fileobj        # used again with other content
                f.seek(0)
                f.truncate()
            f.write(self.source(r['tail']))
            f.seek(0)
            kw['file'] = f
        try:
            return ('ok', api.compile(**kw))
        except Exception as e:
            return ('exc', e)

    def canonical(self, r):
        """Requests with different values here are different requests."""
        if r.get('bad') is not None:
            src = ('b', r['bad'])
        elif r['how'] == 0:
            src = ('s', r['tail'])
        elif r['how'] == 1:
            src = ('f', r['file'], self.files[r['file']])
        else:
            src = ('o', r['tail'])
        mod = MODS[r['mod']] or ('file' if src[0] == 'f' else 'default')
        if self.pre(r):
            tail = self.files[r['file']][0] if r['how'] == 1 else r['tail']
            if r['how'] == 1:
                mod = MODS[r['mod']] or 'file%d' % r['file']
            src = ('p', tail, PREVALS[self.pre(r)])
        cls = CLASSES[r['cls']] or mod
        main = MAINS[r['main']] or ('apimain' if r['api'] == 1 else None)
        glob = json.dumps(r['glob'], sort_keys=True) if r['glob'] else (
            'api' if r['api'] == 1 else 0)
        sett = SETTINGS[r['sett']]
        if sett is None:
            sett = {'cheetahVarStartToken': '@'} if r['api'] == 2 else {}
        base = r['base'] or (1 if r['api'] == 2 else 0)
        if base == 3:
            base = 2            # an instance stands for its class
        return (src, mod, cls, main, str(glob), repr(sorted(sett.items())),
                base, r['comp'])

    def cacheable(self, r):
        return (r['how'] != 2 or r.get('bad') is not None
                or self.pre(r)) and not any(
            has_set(v) for v in (r['glob'] or {}).values())

    def observe(self, r, got):
        """What a user can see of a result."""
        kind, v = got
        if kind == 'exc':
            msg = self.norm(str(v))
            if isinstance(v, UnicodeError):
                msg = re.sub(r'\d+', 'N', msg)
            return ('exc', type(v).__name__, msg)
        if isinstance(v, bytes):
            return ('code', self.norm(v.decode('utf-8', 'replace')))
        u = tmpl.User('U', {})
        try:
            t = v(searchList=[{'u': u, 'at': 'AT', 'optval': 'sl'}])
            text = [str(t), str(t)]
            text.append(getattr(t, 'hello', lambda: 'none')())
        except Exception as e:
            text = '%s: %s' % (type(e).__name__, self.norm(str(e)))
        mod = v.__module__
        want = MODS[r['mod']]
        code = ''
        if hasattr(v, 'generatedModuleCode') and isinstance(text, list):
            code = t.generatedModuleCode() or ''
        return ('cls', v.__name__, want is None or want in mod,
                [b.__name__ for b in v.__bases__],
                [id(b) for b in v.__bases__
                 if b.__module__ != 'Cheetah.Template'],
                MAINS[r['main']] is None or hasattr(v, MAINS[r['main']]),
                text, self.norm(code))

    @staticmethod
    def norm(s):
        s = clean(s)
        s = re.sub(r'__CHEETAH_(genTime|genTimestamp|srcLastModified)__ = .*',
                   '', s)
        # addresses, unique numbers and unique module names
        return re.sub(r'cheetah_\w+|0x[0-9a-f]+|\d{5,}', 'N', s)

    def run(self, plan, res, workdir):
        env = make_env()
        # the caller may pass the same dictionaries again and again
        self.settings = copy.deepcopy(SETTINGS)
        self.presett = {'useNameMapper': True}
        self.preinit = {}
        self.reuse = plan.get('reuse')
        self.files = {}
        self.fileobj = io.StringIO()
        self.stamp = 0
        self.mtimes = {0: set(), 1: set()}
        for i in range(2):
            self.write(workdir, i, i, self.files[0][1]
                       if i and plan.get('same') else None)
        cached = {}
        classes = {}
        hits = near = 0
        keep = []
        for op in plan['ops']:
            if op['op'] == 'clock':
                CLOCK.advance(op['dt'])
                res.fault('clock')
                res.log('clock %s' % op['dt'])
                continue
            if op['op'] == 'edit':
                CLOCK.advance(op['dt'])
                self.write(workdir, op['file'], op['tail'],
                           self.files[1 - op['file']][1]
                           if op.get('same') else None)
                res.fault('file-edit')
                res.log('edit %s' % op)
                continue
            fired = {}
            if op.get('fault'):
                FS.begin(workdir, dict([op['fault']]))
                FS.stat_faults = True
            try:
                got = self.request(op, env, workdir, op['cache'])
            finally:
                if op.get('fault'):
                    fired = dict(FS.fired)
                    FS.end()
                    FS.stat_faults = False
            for k, v in fired.items():
                res.fault('disk-' + k, v)
            fresh = self.request(op, env, workdir, 'off', True)
            keep += [got, fresh]
            what = 'request %s' % {k: v for k, v in op.items() if v}
            a, b = self.observe(op, got), self.observe(op, fresh)
            res.checks += 1
            res.log('%s -> %s' % (what, a[:3] if a[0] != 'code' else
                                  'code %d' % tmpl.h(a[1])))
            if fired and got[0] == 'exc' and isinstance(got[1], OSError):
                res.probe('read-error')
                continue
            if a != b:
                raise Violation('differs-from-fresh', '%s: with the cache '
                                '%r, compiled afresh %r'
                                % (what, self.brief(a, b), self.brief(b, a)))
            if op['how'] == 2 and op.get('bad') is None:
                other = self.request(dict(op, how=0), env, workdir, 'off')
                if other[0] != got[0] or isinstance(a[-2], list) and \
                        self.observe(op, other)[-2] != a[-2]:
                    raise Violation(
                        'file-object', '%s gives %r; with the same source as '
                        'a string it gives %r' % (
                            what, str(a)[:300],
                            str(self.observe(op, other))[:300]))
            if got[0] == 'exc':
                res.probe('failed-compile')
                continue
            if op['cache'] == 'code':
                res.probe('source-only')
                continue
            key = self.canonical(op)
            cls = got[1]
            other = classes.setdefault(id(cls), key)
            if other != key:
                raise Violation('class-shared', '%s got the class of another '
                                'request: %s' % (what, other))
            if op['cache'] == 'off' or not self.cacheable(op):
                if sum(1 for g in keep if g[1] is cls) > 1:
                    raise Violation('class-shared', '%s was made with the '
                                    'cache off, but its class was returned '
                                    'before' % what)
                continue
            if key in cached:
                hits += 1
                if cached[key] is not cls:
                    raise Violation('not-reused', '%s is a repeated request '
                                    'but got a new class' % what)
                res.probe('cache-hit')
            else:
                near += bool(cached)
                if op['cache'] == 'on':
                    cached[key] = cls
        res.nontrivial = bool(hits and near)

    @staticmethod
    def brief(a, b):
        if a[0] == b[0] == 'cls':
            return [x for x, y in zip(a, b) if x != y][:1]
        return str(a)[:300]


PROP = C04()
