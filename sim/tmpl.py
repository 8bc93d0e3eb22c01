"""Template programs: a generator of template syntax trees, a printer that
turns them into template source for the real compiler, the user objects their
placeholders call, and a reference interpreter that says what each fill must
produce."""
import html

MARK = 'boom'

EXC_NAMES = ['UserError', 'ValueError', 'KeyError', 'AttributeError',
             'NotFound', 'TypeError', 'AssertionError', 'OSError',
             'LookupError', 'KeyboardInterrupt', 'MemoryError',
             'SystemExit', 'RecursionError', 'NameError', 'IndexError']


class UserError(ValueError):
    pass


def make_exc(name, msg):
    if name == 'UserError':
        return UserError(msg)
    if name == 'NotFound':
        from Cheetah.NameMapper import NotFound
        return NotFound(msg)
    import builtins
    return getattr(builtins, name)(msg)


def h(*a):
    """Small deterministic hash."""
    x = 2166136261
    for c in '/'.join(map(str, a)):
        x = ((x ^ ord(c)) * 16777619) & 0xffffffff
    x ^= x >> 15
    return (x * 2246822519 & 0xffffffff) >> 7


VARY = ['A', 'B', 'a', 'A ', 'A', ' A', u'\u00fc', 'u', u'\u00fb', 'x' * 70 + '1',
        'x' * 70 + '2', 'x' * 70, 0, '', 1, 10, 'None', 'A B', 'AB']


def vary_index(k, i):
    """Each region meets three of the keys."""
    return (h('y0', k) + i % 3) % len(VARY)


_lib = []


def filters_lib():
    """The filters of Cheetah and one that counts what it has filtered."""
    if not _lib:
        import types
        from Cheetah import Filters

        class Tag(Filters.Filter):
            n = 0

            def filter(self, val, **kw):
                self.n += 1
                return u'%s~%d' % (val, self.n)
        lib = types.ModuleType('filters_with_tag')
        lib.__dict__.update(Filters.__dict__)
        lib.Tag = Tag
        _lib.append(lib)
    return _lib[0]


class UserModel(object):
    """Counts calls, and knows what the n-th call of each kind returns,
    whether it fails and how long it takes."""

    def __init__(self, tag, spec):
        self.tag = tag
        self.counts = {}
        self.fillno = 0
        self.faults = {}
        for key, n, exc in spec.get('faults', ()):
            self.faults[(key, n)] = exc
        self.slow = {}
        for key, n, d in spec.get('slow', ()):
            self.slow[(key, n)] = d
        self.raised = []
        self.nraised = 0
        self.nslow = 0

    # overridden by the two sides
    def on_call(self, key):
        pass

    def on_slow(self, d):
        pass

    def call(self, key):
        n = self.counts.get(key, 0) + 1
        self.counts[key] = n
        self.on_call(key)
        d = self.slow.get((key, n))
        if d:
            self.nslow += 1
            self.on_slow(d)
        exc = self.faults.get((key, n))
        if exc:
            self.nraised += 1
            self.raised.append(make_exc(exc, '%s %s.%s.%d'
                                        % (MARK, self.tag, key, n)))
            raise self.raised[-1]
        return n

    def value(self, key):
        n = self.call(key)
        s = '<%s%s.%d&>' % (self.tag, key, n)
        if h(key, n) % 5 == 0:
            s += u'\u00e9\u4e2d'
        elif h(key, n) % 5 == 1:
            s = '  ' + s + '  y \n z '
        if h('long', key, n) % 60 == 0:
            s += 'long ' * 1700
        return s

    def truth(self, key):
        n = self.call(key)
        return h('b', key, n) % 5 < 3

    def more(self, key):
        return self.call(key) % 3 != 0

    def items(self, key):
        n = self.call(key)
        for i in range(h('s', key, n) % 4):
            self.call(key + 'i')
            yield '%s%s.%d-%d' % (self.tag, key, n, i)

    def test_of(self, k):
        return h('t', k, self.fillno) % 4 == 0

    def vary_of(self, k):
        return VARY[vary_index(k, h('y', k, self.fillno))]

    def wrapped(self, s):
        n = self.call('w')
        return '[%sw%d %s]' % (self.tag, n, s)

    def wrapped2(self, a, b):
        n = self.call('x')
        return '[%sx%d %s|%s]' % (self.tag, n, a, b)

    def up(self, val):
        n = self.call('f')
        return '%s' % (val,) if n < 0 else ('%s' % (val,)).upper()


class User(UserModel):
    """The real side: what templates see as $u."""

    def __init__(self, tag, spec, on_call=None, on_slow=None, sources=None,
                 eager=False):
        UserModel.__init__(self, tag, spec)
        self._on_call = on_call
        self._on_slow = on_slow
        self._sources = sources or {}
        self._eager = eager
        outer = self

        from Cheetah import Filters

        class Up(Filters.Filter):
            def filter(self, val, **kw):
                return outer.up(val)
        self.Up = Up

    def on_call(self, key):
        if self._on_call is not None:
            self._on_call(key)

    def on_slow(self, d):
        if self._on_slow is not None:
            self._on_slow(d)

    def v(self, k):
        return self.value('v%s' % k)

    def b(self, k):
        return self.truth('b%s' % k)

    def m(self, k):
        return self.more('m%s' % k)

    def seq(self, k):
        return self.items('s%s' % k)

    def t(self, k):
        return self.test_of(k)

    def y(self, k):
        return self.vary_of(k)

    def wrap(self, s):
        return self.wrapped(s)

    def wrap2(self, a='', b=''):
        return self.wrapped2(a, b)

    def src(self, k):
        return self._sources[str(k)]

    def au0(self):
        return self.value('a0')

    def au1(self):
        return self.value('a1')

    def au2(self):
        return self.value('a2')


def namespace(user):
    d = {'u': user, 'd': {'x': 'DX', 'y': {'z': 'DZ<&>'}}}
    for i in range(8):
        d['l%d' % i] = 'dl%d' % i
        d['g%d' % i] = 'dg%d<' % i
        d['i%d' % i] = 'di%d' % i
        d['a%d' % i] = 'da%d' % i
    return d


# ------------------------------------------------------------- generating

# further parameters of a method, never passed
SIGS = [None, None, None, '*rest', '**kws', "opt='o'"]


class Gen(object):
    """Options say which constructs may appear:
    kinds: set of node kinds; depth, size."""

    LEAF = ['text', 'ph', 'var', 'echo', 'silent', 'set', 'setg', 'nope',
            'oneif', 'dotted', 'stop', 'raise', 'break', 'continue', 'cph',
            'include', 'call0', 'super', 'lines', 'yield', 'assert', 'del',
            'getvar', 'fa']
    DEEP = ['if', 'unless', 'for', 'repeat', 'while', 'filter', 'call',
            'call2', 'capture', 'cache', 'try', 'block', 'raw', 'elif']

    WEIGHT = {'text': 4, 'ph': 6, 'var': 4, 'call0': 3, 'filter': 2,
              'call': 2, 'capture': 2, 'cache': 2, 'try': 2, 'include': 2,
              'stop': 1, 'raise': 1, 'nope': 1, 'for': 2, 'assert': 0.4,
              'del': 0.5, 'getvar': 0.7, 'fa': 0.3, 'elif': 1}

    def __init__(self, rng, kinds, size=14, depth=4, nfiles=2, nsrcs=1,
                 ndefs=2, inherit=False, timers=True, filters=None,
                 cache_opts=True, gen=False, catch=False, stateful=True):
        self.r = rng
        self.kinds = kinds
        self.left = size
        self.maxdepth = depth
        self.nfiles = nfiles
        self.nsrcs = nsrcs
        self.ndefs = ndefs
        self.inherit = inherit
        self.timers = timers
        self.filters = filters or ['WebSafe', 'WebSafe', 'Up', 'Up', 'none',
                                   'Strip', 'StripSqueeze', 'MaxLen', 'Tag']
        self.cache_opts = cache_opts
        self.gen = gen
        self.catch = catch
        self.stateful = stateful    # filters and catchers with memory
        self.ids = 0
        self.cids = []
        self.blocks = []

    def id(self):
        self.ids += 1
        return self.ids

    def program(self):
        r = self.r
        p = {}
        self.ctx = dict(methods=['m%d' % i for i in range(self.ndefs)],
                        file_from=0, in_loop=0, region=0, main=True)
        budget = self.left
        self.left = max(3, budget // 2)
        p['main'] = {'body': self.body(0)}
        if self.gen:
            p['gen'] = True
            p['main']['body'].append({'k': 'yield'})
        if self.catch:
            p['catch'] = r.choice(['Echo', 'BigEcho', 'ListErrors']
                                  if self.stateful else
                                  ['Echo', 'Echo', 'BigEcho'])
        defs = []
        self.left = max(self.left, budget // 3)
        for i in range(self.ndefs):
            # a method may call only later ones: no recursion
            self.ctx = dict(methods=['m%d' % j
                                     for j in range(i + 1, self.ndefs)],
                            file_from=0, in_loop=0, region=0, main=False)
            self.left += 3
            defs.append({'name': 'm%d' % i, 'nargs': r.randrange(3),
                         'sig': r.choice(SIGS),
                         'body': self.body(1)})
        p['defs'] = defs
        if self.inherit:
            over = []
            names = [d['name'] for d in defs] + list(self.blocks)
            for i, name in enumerate(names):
                if r.random() < 0.6:
                    nargs = [d['nargs'] for d in defs
                             if d['name'] == name] or [0]
                    later = ['m%d' % j for j in range(self.ndefs)
                             if name[0] == 'm' and j > int(name[1:])]
                    self.ctx = dict(methods=later, file_from=0, in_loop=0,
                                    region=0, main=False, super=nargs[0])
                    self.left += 4
                    over.append({'name': name, 'nargs': nargs[0],
                                 'sig': r.choice(SIGS),
                                 'body': self.body(1)})
            p['over'] = over
        files = []
        for i in range(self.nfiles):
            self.ctx = dict(methods=[], file_from=i + 1, in_loop=0, region=0,
                            main=False, ascii=True)
            self.left += 4
            files.append({'body': self.attr() + self.body(2)})
        p['files'] = files
        srcs = []
        for i in range(self.nsrcs):
            self.ctx = dict(methods=[], file_from=self.nfiles, in_loop=0,
                            region=0, main=False, insrc=True)
            self.left += 3
            srcs.append({'body': self.attr() + self.body(2)})
        p['srcs'] = srcs
        return p

    def attr(self):
        if 'fa' in self.kinds and self.r.random() < 0.4:
            return [{'k': 'attr', 'id': self.id()}]
        return []

    def n_fa(self, d, k):
        return {'k': k, 'id': self.id()}

    def body(self, depth, n=None):
        r = self.r
        n = n or r.choice([1, 2, 2, 3, 3, 4])
        out = []
        for _ in range(n):
            if self.left <= 0 and out:
                break
            self.left -= 1
            out.append(self.node(depth))
            if out[-1]['k'] == 'include' and 'getvar' in self.kinds \
                    and r.random() < 0.25:
                # an attribute of the included template is not ours
                out.append({'k': 'getvar', 'f': 4, 'n': 0})
        return out

    def node(self, depth):
        r = self.r
        kinds = [k for k in self.LEAF if k in self.kinds]
        if depth < self.maxdepth and self.left > 0:
            kinds += [k for k in self.DEEP if k in self.kinds]
        c = self.ctx
        bad = set()
        if not c['in_loop']:
            bad |= {'break', 'continue'}
        if not c['methods']:
            bad.add('call0')
        if c['file_from'] >= self.nfiles and (c.get('insrc')
                                              or not self.nsrcs):
            bad.add('include')
        if 'super' not in c:
            bad.add('super')
        if not (c['main'] and self.gen and not c['region']):
            bad.add('yield')
        if self.gen and c['main']:
            bad.add('stop')
        if not c['main']:
            bad.add('block')
        if c.get('plain'):
            bad |= {'call0', 'block', 'include', 'super'}
        kinds = [k for k in kinds if k not in bad]
        w = [self.WEIGHT.get(k, 1.5) for k in kinds]
        k = r.choices(kinds, w)[0]
        return getattr(self, 'n_' + k)(depth, k)

    def sub(self, depth, region=0, loop=0, plain=False):
        c = self.ctx
        save = dict(c)
        c['region'] += region
        c['in_loop'] += loop
        if plain:
            c['plain'] = True
        b = self.body(depth + 1)
        self.ctx = save
        return b

    def n_text(self, d, k):
        f = self.r.randrange(6)
        if f == 4 and self.ctx.get('ascii'):
            f = 0               # files are read with the default encoding
        return {'k': 'text', 'id': self.id(), 'f': f}

    def n_lines(self, d, k):
        return {'k': 'text', 'id': self.id(), 'f': 5}

    def n_ph(self, d, k):
        return {'k': 'ph', 'id': self.id(), 'f': self.r.randrange(4)}

    def n_echo(self, d, k):
        return {'k': k, 'id': self.id()}
    n_silent = n_echo
    n_raise = n_echo
    n_nope = n_echo
    n_assert = n_echo

    def n_dotted(self, d, k):
        return {'k': k, 'f': self.r.randrange(2)}

    def n_oneif(self, d, k):
        return {'k': k, 'id': self.id(), 'id2': self.id(), 'id3': self.id()}

    def n_var(self, d, k):
        return {'k': k, 'n': self.r.choice(['l0', 'l1', 'l2', 'g0', 'g1',
                                            'i1', 'a0'])}

    def n_set(self, d, k):
        return {'k': k, 'n': 'l%d' % self.r.randrange(3), 'id': self.id()}

    def n_setg(self, d, k):
        return {'k': k, 'n': 'g%d' % self.r.randrange(2), 'id': self.id()}

    def n_del(self, d, k):
        return {'k': k, 'n': 'l%d' % self.r.randrange(3), 'id': self.id()}

    def n_getvar(self, d, k):
        return {'k': k, 'f': self.r.randrange(4), 'n': self.r.randrange(2)}

    def n_elif(self, d, k):
        return {'k': k, 'id': self.id(), 'id2': self.id(),
                'body': self.sub(d), 'argb': self.sub(d),
                'else': self.sub(d) if self.r.random() < 0.5 else []}

    def n_stop(self, d, k):
        return {'k': k}
    n_break = n_continue = n_yield = n_stop

    def n_cph(self, d, k):
        iv = None
        if self.timers and self.r.random() < 0.5:
            iv = self.r.choice(['5s', '90s', '2m', '2', '0.5h', '1.5m',
                                '1d', '0.5w', '3h'])
        return {'k': k, 'id': self.id(), 'cid': self.id(), 'iv': iv,
                'f': self.r.randrange(2)}

    def n_include(self, d, k):
        r = self.r
        c = self.ctx
        opts = list(range(c['file_from'], self.nfiles))
        if opts and (not self.nsrcs or r.random() < 0.75):
            return {'k': k, 'kind': 'file', 'n': r.choice(opts),
                    'raw': r.random() < 0.25}
        return {'k': k, 'kind': 'source', 'n': r.randrange(self.nsrcs),
                'raw': r.random() < 0.2} if self.nsrcs else self.n_text(d, k)

    def n_call0(self, d, k):
        return {'k': k, 'm': self.r.choice(self.ctx['methods']),
                'id': self.id(), 'f': self.r.randrange(2)}

    def n_super(self, d, k):
        return {'k': k, 'nargs': self.ctx['super']}

    def n_if(self, d, k):
        return {'k': k, 'id': self.id(), 'body': self.sub(d),
                'else': self.sub(d) if self.r.random() < 0.5 else []}

    def n_unless(self, d, k):
        return {'k': k, 'id': self.id(), 'body': self.sub(d)}

    def n_for(self, d, k):
        return {'k': k, 'id': self.id(), 'n': 'i%d' % self.r.randrange(3),
                'body': self.sub(d, loop=1)}

    def n_repeat(self, d, k):
        return {'k': k, 'n': self.r.randrange(1, 4),
                'body': self.sub(d, loop=1)}

    def n_while(self, d, k):
        return {'k': k, 'id': self.id(), 'body': self.sub(d, loop=1)}

    def a_filter(self):
        f = self.r.choice(self.filters)
        if f == 'Tag' and (self.ctx.get('ascii') or self.ctx.get('insrc')
                           or not self.stateful):
            f = 'WebSafe'       # included templates use the usual filters
        return f

    def n_filter(self, d, k):
        f = self.a_filter()
        b = self.sub(d, plain=(f == 'none'))
        if d < self.maxdepth - 1 and self.r.random() < 0.12:
            # three deep, the middle one off, with text after the innermost
            b.append({'k': k, 'f': 'none', 'body': [
                {'k': k, 'f': self.a_filter(),
                 'body': [self.n_ph(d + 3, 'ph')]},
                self.n_ph(d + 2, 'ph')]})
        return {'k': k, 'f': f, 'body': b}

    def n_call(self, d, k):
        return {'k': k, 'body': self.sub(d, region=1)}

    def n_call2(self, d, k):
        return {'k': k, 'body': self.sub(d, region=1),
                'argb': self.sub(d, region=1)}

    def n_capture(self, d, k):
        return {'k': k, 'n': 'l%d' % self.r.randrange(3),
                'body': self.sub(d, region=1)}

    def n_cache(self, d, k):
        r = self.r
        cid = self.id()
        n = {'k': k, 'cid': cid, 'custom': False, 'iv': None, 'test': False,
             'vary': False, 'body': self.sub(d, region=1)}
        if self.cache_opts:
            n['custom'] = r.random() < 0.6
            if self.timers and r.random() < 0.5:
                n['iv'] = r.choice(['5s', '90s', '2m', '2', '1.5m', '5s',
                                    '90s', '2h', '1d', '1w', '1.5', '1.5d'])
            n['test'] = r.random() < 0.3
            n['vary'] = r.random() < 0.35
            n['idf'] = r.choice([0, 1])
            if r.random() < 0.2:
                n['bare'] = True
                if r.random() < 0.5 and 'silent' in self.kinds:
                    n['body'] = [self.n_silent(d, 'silent')]
        return n

    def n_try(self, d, k):
        r = self.r
        exc = r.choice(['ValueError', 'Exception', 'KeyError', None])
        fin = not exc or r.random() < 0.3
        n = {'k': k, 'exc': exc, 'fin': fin, 'handler': [], 'finally': []}
        kinds = self.kinds
        if fin:
            # what a finally part adds after #stop is not settled, and leaving
            # it early would swallow the error
            self.kinds = kinds - {'stop'}
        n['body'] = self.sub(d)
        if exc:
            n['handler'] = self.sub(d)
        if fin:
            save, self.ctx = self.ctx, dict(self.ctx, in_loop=0)
            n['finally'] = self.sub(d)
            self.ctx = save
        self.kinds = kinds
        return n

    def n_block(self, d, k):
        name = 'b%d' % len(self.blocks)
        self.blocks.append(name)
        c = self.ctx
        save, self.ctx = self.ctx, dict(c, in_loop=0, main=False, region=0)
        b = self.body(d + 1)
        self.ctx = save
        return {'k': k, 'n': name, 'body': b}

    def n_raw(self, d, k):
        return {'k': k, 'id': self.id()}


# ------------------------------------------------------------- printing

TEXTS = ['t%d;', ' t%d ', 't%d,x', 't%d.', u't%d\u00e9-', 't%d\nq']


def text_of(n):
    return TEXTS[n['f']] % n['id']


def cache_id(n):
    return ['c%d', 'region_c%d'][n.get('idf', 0)] % n['cid']


def raw_of(n):
    return 'r%d $u.v(1) #if x ' % n['id']


def ph_src(n):
    f = n['f']
    i = n['id']
    if f == 0:
        return '$u.v(%d)' % i
    if f == 1:
        return '${u.v(%d)}' % i
    if f == 2:
        return '$u.au%d' % (i % 3)
    return '$(u.v(%d))' % i


def getvar_src(n):
    f = n['f']
    if f == 0:
        return "$getVar('g%d', 'none')" % n['n']
    if f == 1:
        return "$getVar('nope%d', 'none')" % n['n']
    if f == 2:
        return "$varExists('g%d')" % n['n']
    if f == 4:
        return "$getVar('fa', 'none')"
    return "$hasVar('nope%d')" % n['n']


def ph_key(n):
    return 'a%d' % (n['id'] % 3) if n['f'] == 2 else 'v%d' % n['id']


def src(body):
    return u''.join(map(src1, body))


def src1(n):
    k = n['k']
    if k == 'text':
        return text_of(n)
    if k == 'raw':
        return '#raw#' + raw_of(n) + '#end raw#'
    if k == 'ph':
        return ph_src(n) + ';'
    if k == 'cph':
        iv = '*%s*' % n['iv'] if n['iv'] else '*'
        return '$' + iv + ('u.v(%d)' if n['f'] else '{u.v(%d)}') % n['id'] \
            + ';'
    if k == 'echo':
        return '#echo $u.v(%d)#' % n['id']
    if k == 'silent':
        return '#silent $u.v(%d)#' % n['id']
    if k == 'raise':
        return "#raise ValueError('r%d')#" % n['id']
    if k == 'nope':
        return '$nope%d;' % n['id']
    if k == 'dotted':
        return ['$d.x;', '$d.y.z;'][n['f']]
    if k == 'oneif':
        return '#if $u.b(%d) then $u.v(%d) else $u.v(%d)#' % (
            n['id'], n['id2'], n['id3'])
    if k == 'var':
        return '$%s;' % n['n']
    if k == 'set':
        return '#set $%s = $u.v(%d)#' % (n['n'], n['id'])
    if k == 'setg':
        return '#set global $%s = $u.v(%d)#' % (n['n'], n['id'])
    if k in ('stop', 'break', 'continue', 'yield'):
        return '#%s#' % k
    if k == 'include':
        raw = 'raw ' if n['raw'] else ''
        if n['kind'] == 'file':
            return "#include %s'%sf%d.tmpl'#" % (raw, n.get('pfx', ''),
                                                 n['n'])
        return '#include %ssource=$u.src(%d)#' % (raw, n['n'])
    if k == 'call0':
        return '$m_CALL_%s_%d_%d;' % (n['m'], n['id'], n['f'])
    if k == 'super':
        return '#super(%s)#' % ', '.join('a%d=$a%d' % (i, i)
                                         for i in range(n['nargs']))
    if k == 'if':
        return '#if $u.b(%d)#%s%s#end if#' % (
            n['id'], src(n['body']),
            '#else#' + src(n['else']) if n['else'] else '')
    if k == 'elif':
        return '#if $u.b(%d)#%s#%s $u.b(%d)#%s%s#end if#' % (
            n['id'], src(n['body']), ['elif', 'else if'][n['id'] % 2],
            n['id2'], src(n['argb']),
            '#else#' + src(n['else']) if n['else'] else '')
    if k == 'assert':
        return "#assert $u.b(%d), 'as%d'#" % (n['id'], n['id'])
    if k == 'del':
        return '#set $%s = $u.v(%d)##del %s#' % (n['n'], n['id'], n['n'])
    if k == 'attr':
        return "#attr $fa = 'FA%d'#" % n['id']
    if k == 'fa':
        return '$fa;'
    if k == 'getvar':
        return getvar_src(n) + ';'
    if k == 'unless':
        return '#unless $u.b(%d)#%s#end unless#' % (n['id'], src(n['body']))
    if k == 'for':
        return '#for $%s in $u.seq(%d)#%s#end for#' % (n['n'], n['id'],
                                                       src(n['body']))
    if k == 'repeat':
        return '#repeat %d#%s#end repeat#' % (n['n'], src(n['body']))
    if k == 'while':
        return '#while $u.m(%d)#%s#end while#' % (n['id'], src(n['body']))
    if k == 'filter':
        f = {'Up': '$u.Up'}.get(n['f'], n['f'])
        return '#filter %s#%s#end filter#' % (f, src(n['body']))
    if k == 'call':
        return '#call $u.wrap#%s#end call#' % src(n['body'])
    if k == 'call2':
        return '#call $u.wrap2##arg a#%s#arg b#%s#end call#' % (
            src(n['body']), src(n['argb']))
    if k == 'capture':
        return '#capture %s#%s#end capture#' % (n['n'], src(n['body']))
    if k == 'cache':
        a = []
        if n['iv']:
            a.append("timer='%s'" % n['iv'])
        if n['custom']:
            a.append("id='%s'" % cache_id(n))
        if n['vary']:
            a.append('varyBy=$u.y(%d)' % n['cid'])
        if n['test']:
            a.append('test=$u.t(%d)' % n['cid'])
        return '#cache%s#%s%s#end cache#' % (
            (' ' + ', '.join(a)) if a else '',
            '' if n.get('bare') else '{c%d:' % n['cid'], src(n['body']))
    if k == 'try':
        s = '#try#' + (src(n['body']) or '#silent 1#')
        if n['exc']:
            s += '#except %s#' % n['exc'] + (src(n['handler'])
                                             or '#silent 1#')
        if n.get('fin') or not n['exc']:
            s += '#finally#' + (src(n['finally']) or '#silent 1#')
        return s + '#end try#'
    if k == 'block':
        return '#block %s#%s#end block#' % (n['n'], src(n['body']))
    raise AssertionError(k)


def _calls(s, nargs):
    """Fill in the arguments of method calls once arities are known."""
    import re

    def rep(m):
        name, i, f = m.group(1), int(m.group(2)), int(m.group(3))
        n = nargs.get(name, 0)
        args = ', '.join(['$u.v(%d)' % i, "'k%d'" % i][:n])
        if f:
            return '${%s(%s)}' % (name, args)
        return '$%s(%s)' % (name, args)
    return re.sub(r'\$m_CALL_(m\d+)_(\d+)_(\d)', rep, s)


def nargs_of(p):
    return dict((d['name'], d['nargs']) for d in p['defs'])


def defsrc(d):
    args = ', '.join(['a%d' % i for i in range(d['nargs'])]
                     + [d['sig']] * bool(d.get('sig')))
    return '#def %s(%s)#%s#end def#' % (d['name'], args, src(d['body'])) \
        if args else '#def %s#%s#end def#' % (d['name'], src(d['body']))


def main_source(p):
    s = '#errorCatcher %s#' % p['catch'] if p.get('catch') else ''
    s += src(p['main']['body'])
    for d in p['defs']:
        s += defsrc(d)
    return _calls(s, nargs_of(p))


def derived_source(p, modname, clsname):
    s = '#from %s import %s\n#extends %s\n' % (modname, clsname, clsname)
    for d in p['over']:
        s += defsrc(d) + '\n'
    return _calls(s, nargs_of(p))


def file_sources(p):
    return [src(f['body']) for f in p['files']]


def src_sources(p):
    return dict((str(i), src(f['body'])) for i, f in enumerate(p['srcs']))


# ------------------------------------------------------------- reference

class Ambiguous(Exception):
    """The property leaves open what happens here: stop judging this run."""


class _Stop(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class RefUser(UserModel):
    ref = None

    def on_slow(self, d):
        self.ref.now += d


def interval(s):
    mult = {'s': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 604800}
    if s[-1] in mult:
        return float(s[:-1]) * mult[s[-1]]
    return float(s) * 60


class Inst(object):
    """Reference state of one template instance."""

    def __init__(self, globals_):
        self.globals = globals_
        self.caches = {}
        self.includes = {}
        self.tagged = 0
        self.errors = []
        self.attrs = []     # of the files between the template and here


class Ref(object):
    """Predicts what each fill of one instance yields.  Caught exceptions and
    everything else follow the order in which the template is written."""

    def __init__(self, prog, user, initial=None):
        self.p = prog
        self.u = user
        user.ref = self
        self.now = 0.0
        self.inst = Inst({})
        self.initial = initial or ('none',)
        self.current = self.initial
        self.ns = namespace(None)
        self.nargs = nargs_of(prog)
        self.stats = {}
        self.filesrc = None
        self.depth = 0

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- one fill -------------------------------------------------------
    def fill(self, now):
        """Text of a fill starting at time `now`, or the exception."""
        self.now = now
        self.current = self.initial
        out = []
        self.yields = []
        try:
            self.method('respond', self.p['main']['body'], {}, out,
                        main=True)
        finally:
            self.partial = u''.join(out)
        return self.partial

    def method(self, name, body, env, out, main=False, cls='base',
               inst=None, filt=None):
        fr = Frame()
        fr.env = env
        fr.filter = filt or self.current
        fr.name = name
        fr.cls = cls
        fr.inst = inst or self.inst
        fr.region = 0
        fr.nested = inst is not None
        fr.main = main
        fr.catch = bool(self.p.get('catch')) and main
        try:
            self.run(body, fr, out)
        except _Stop:
            # the method's output so far counts; text collected by a region
            # that is still open does not
            if fr.region:
                self.stat('stop-in-region')
        except (_Break, _Continue):
            raise AssertionError('break outside loop')

    def lookup_method(self, name):
        """Most derived definition of a method or block."""
        for d in self.p.get('over', ()):
            if d['name'] == name:
                return d, 'over'
        return self.base_method(name), 'base'

    def base_method(self, name):
        for d in self.p['defs']:
            if d['name'] == name:
                return d
        b = find_block(self.p['main']['body'], name)
        return {'name': name, 'nargs': 0, 'body': b['body']}

    # -- nodes ----------------------------------------------------------
    def run(self, body, fr, out):
        for n in body:
            getattr(self, 'x_' + n['k'])(n, fr, out)

    def filt(self, fr, val):
        f = fr.filter
        if f[0] == 'none':
            return val
        if f[0] == 'WebSafe':
            return html.escape(val, False)
        if f[0] == 'Up':
            return self.u.up(val)
        if f[0] == 'Strip':
            return u'\n'.join(x.strip() for x in val.split('\n'))
        if f[0] == 'StripSqueeze':
            return u' '.join(val.split())
        if f[0] == 'MaxLen':
            return val
        if f[0] == 'Tag':
            self.inst.tagged += 1
            return u'%s~%d' % (val, self.inst.tagged)
        raise AssertionError(f)

    def emit(self, n, fr, out, fn, raw):
        """A placeholder: evaluate, filter, write."""
        if fr.catch:
            from Cheetah.NameMapper import NotFound
            try:
                v = fn()
            except NotFound:
                self.stat('error-catcher')
                v = raw
                self.inst.errors.append(raw)
                if self.p['catch'] == 'BigEcho':
                    v = '=' * 15 + '&lt;%s could not be found&gt;' % raw \
                        + '=' * 15
        else:
            v = fn()
        out.append(self.filt(fr, v))

    def x_text(self, n, fr, out):
        out.append(text_of(n))

    def x_raw(self, n, fr, out):
        out.append(raw_of(n))

    def x_ph(self, n, fr, out):
        self.emit(n, fr, out, lambda: self.u.value(ph_key(n)), ph_src(n))
        out.append(';')

    def x_echo(self, n, fr, out):
        out.append(self.filt(fr, self.u.value('v%d' % n['id'])))

    def x_silent(self, n, fr, out):
        self.u.value('v%d' % n['id'])

    def x_raise(self, n, fr, out):
        self.stat('raise')
        raise ValueError('r%d' % n['id'])

    def x_nope(self, n, fr, out):
        def fn():
            from Cheetah.NameMapper import NotFound
            raise NotFound("cannot find 'nope%d'" % n['id'])
        self.emit(n, fr, out, fn, '$nope%d' % n['id'])
        out.append(';')

    def x_assert(self, n, fr, out):
        if not self.u.truth('b%d' % n['id']):
            self.stat('raise')
            raise AssertionError('as%d' % n['id'])

    def x_del(self, n, fr, out):
        self.u.value('v%d' % n['id'])
        fr.env.pop(n['n'], None)

    def x_getvar(self, n, fr, out):
        def fn():
            if n['f'] == 0:
                g = 'g%d' % n['n']
                return fr.inst.globals.get(g, self.ns[g])
            return ['', 'none', 'True', 'False', 'none'][n['f']]
        self.emit(n, fr, out, fn, getvar_src(n))
        out.append(';')

    def x_attr(self, n, fr, out):
        pass

    def x_fa(self, n, fr, out):
        def fn():
            if fr.inst.attrs:
                return fr.inst.attrs[0]
            from Cheetah.NameMapper import NotFound
            raise NotFound("cannot find 'fa'")
        self.emit(n, fr, out, fn, '$fa')
        out.append(';')

    def x_dotted(self, n, fr, out):
        self.emit(n, fr, out, lambda: ['DX', 'DZ<&>'][n['f']],
                  ['$d.x', '$d.y.z'][n['f']])
        out.append(';')

    def x_oneif(self, n, fr, out):
        k = n['id2'] if self.u.truth('b%d' % n['id']) else n['id3']
        out.append(self.filt(fr, self.u.value('v%d' % k)))

    def lookup(self, name, fr):
        if name in fr.env:
            return fr.env[name]
        if name in fr.inst.globals:
            return fr.inst.globals[name]
        if name in self.ns:
            return self.ns[name]
        from Cheetah.NameMapper import NotFound
        raise NotFound("cannot find '%s'" % name)

    def x_var(self, n, fr, out):
        self.emit(n, fr, out, lambda: self.lookup(n['n'], fr), '$' + n['n'])
        out.append(';')

    def x_set(self, n, fr, out):
        fr.env[n['n']] = self.u.value('v%d' % n['id'])

    def x_setg(self, n, fr, out):
        fr.inst.globals[n['n']] = self.u.value('v%d' % n['id'])
        self.stat('set-global')

    def x_stop(self, n, fr, out):
        self.stat('stop')
        raise _Stop()

    def x_break(self, n, fr, out):
        raise _Break()

    def x_continue(self, n, fr, out):
        raise _Continue()

    def x_yield(self, n, fr, out):
        self.yields.append(u''.join(out))
        del out[:]

    # cached placeholder
    def x_cph(self, n, fr, out):
        def body(o):
            raw = src1(n)[:-1]
            self.emit(n, fr, o, lambda: self.u.value('v%d' % n['id']), raw)
        self.cached(n, fr, out, body)
        out.append(';')

    def x_cache(self, n, fr, out):
        def body(o):
            if not n.get('bare'):
                o.append('{c%d:' % n['cid'])
            self.run(n['body'], fr, o)
        self.cached(n, fr, out, body)

    def cached(self, n, fr, out, body):
        vary = self.u.vary_of(n['cid']) if n.get('vary') else ''
        test = self.u.test_of(n['cid']) if n.get('test') else False
        key = (n['cid'], vary)
        e = fr.inst.caches.get(key)
        if e is not None and e[1] is not None:
            lo, hi = e[1], e[2]
            if self.now <= hi and len(e) > 3:
                raise Ambiguous('the clock went back after the entry was '
                                'found expired')
            if lo <= self.now <= hi:
                raise Ambiguous('expiry while the region was computed')
            if self.now > hi:
                fr.inst.caches[key] = e[:3] + (True,)
                e = None
                self.stat('cache-expired')
        if test and e is not None:
            self.stat('cache-test')
        if e is not None and not test:
            self.stat('cache-hit')
            out.append(e[0])
            return
        self.stat('cache-miss')
        buf = []
        start = self.now
        fr.region += 1
        try:
            body(buf)
        except BaseException:
            self.stat('cache-failed')
            raise
        finally:
            fr.region -= 1
        text = u''.join(buf)
        lo = hi = None
        if n.get('iv'):
            lo = start + interval(n['iv'])
            hi = self.now + interval(n['iv'])
            if lo != hi:
                self.stat('cache-slow-body')
        try:
            self.on_store(fr, key, text)
        except BaseException:
            # the old text stays, and whether the region knows its old or
            # its new expiry time is not said
            old = fr.inst.caches.get(key)
            if lo is not None and old is not None and old[1] is not None:
                fr.inst.caches[key] = (old[0], min(lo, old[1]),
                                       old[2]) + old[3:]
            raise
        fr.inst.caches[key] = (text, lo, hi)
        out.append(text)

    def on_store(self, fr, key, text):
        pass

    def x_include(self, n, fr, out):
        key = (n['kind'], n['n'], n['raw'])
        lst = self.p['files'] if n['kind'] == 'file' else self.p['srcs']
        if n['raw']:
            if key not in fr.inst.includes:
                text = self.on_include(fr.inst, key)
                fr.inst.includes[key] = src(lst[n['n']]['body']) \
                    if text is None else text
            out.append(fr.inst.includes[key])
            return
        child = fr.inst.includes.get(key)
        if child is None:
            self.on_include(fr.inst, key)
            child = fr.inst.includes[key] = Inst(fr.inst.globals)
            child.attrs = fr.inst.attrs + [
                'FA%d' % x['id'] for x in lst[n['n']]['body']
                if x['k'] == 'attr']
        self.stat('include')
        self.method('respond', lst[n['n']]['body'], {}, out, inst=child,
                    filt=self.initial)

    def on_include(self, inst, key):
        pass

    def invoke(self, d, cls, args, fr):
        o = []
        self.stat('method')
        self.method(d['name'], d['body'], args, o, cls=cls,
                    filt=self.current)
        return u''.join(o)

    def x_call0(self, n, fr, out):
        def fn():
            d, cls = self.lookup_method(n['m'])
            vals = []
            if self.nargs.get(n['m'], 0) > 0:
                vals.append(self.u.value('v%d' % n['id']))
            if self.nargs.get(n['m'], 0) > 1:
                vals.append('k%d' % n['id'])
            args = dict(('a%d' % i, v) for i, v in enumerate(vals))
            return self.invoke(d, cls, args, fr)
        raw = _calls(src1(n)[:-1], self.nargs)
        self.emit(n, fr, out, fn, raw)
        out.append(';')

    def x_super(self, n, fr, out):
        d = self.base_method(fr.name)
        args = dict(('a%d' % i, self.lookup('a%d' % i, fr))
                    for i in range(n['nargs']))
        out.append(self.filt(fr, self.invoke(d, 'base', args, fr)))

    def x_block(self, n, fr, out):
        d, cls = self.lookup_method(n['n'])
        self.method(n['n'], d['body'], {}, out, cls=cls, filt=self.current)

    def x_if(self, n, fr, out):
        if self.u.truth('b%d' % n['id']):
            self.run(n['body'], fr, out)
        else:
            self.run(n['else'], fr, out)

    def x_elif(self, n, fr, out):
        if self.u.truth('b%d' % n['id']):
            self.run(n['body'], fr, out)
        elif self.u.truth('b%d' % n['id2']):
            self.run(n['argb'], fr, out)
        else:
            self.run(n['else'], fr, out)

    def x_unless(self, n, fr, out):
        if not self.u.truth('b%d' % n['id']):
            self.run(n['body'], fr, out)

    def loop(self, n, fr, out):
        try:
            self.run(n['body'], fr, out)
        except _Break:
            return True
        except _Continue:
            pass

    def x_for(self, n, fr, out):
        for v in self.u.items('s%d' % n['id']):
            fr.env[n['n']] = v
            if self.loop(n, fr, out):
                break

    def x_repeat(self, n, fr, out):
        for _ in range(n['n']):
            if self.loop(n, fr, out):
                break

    def x_while(self, n, fr, out):
        while self.u.more('m%d' % n['id']):
            if self.loop(n, fr, out):
                break

    def x_filter(self, n, fr, out):
        save = fr.filter
        cur = self.current
        if n['f'] == 'none':
            fr.filter = self.initial
        else:
            fr.filter = self.current = (n['f'],)
        try:
            self.run(n['body'], fr, out)
        finally:
            fr.filter = save
            self.current = cur
            self.stat('filter-region')

    def collect(self, body, fr):
        o = []
        fr.region += 1
        try:
            self.run(body, fr, o)
        except BaseException:
            self.stat('region-abandoned')
            raise
        finally:
            fr.region -= 1
        return u''.join(o)

    def x_call(self, n, fr, out):
        s = self.collect(n['body'], fr)
        out.append(self.filt(fr, self.u.wrapped(s)))

    def x_call2(self, n, fr, out):
        a = self.collect(n['body'], fr)
        b = self.collect(n['argb'], fr)
        out.append(self.filt(fr, self.u.wrapped2(a, b)))

    def x_capture(self, n, fr, out):
        fr.env[n['n']] = self.collect(n['body'], fr)

    def x_try(self, n, fr, out):
        leave = False
        try:
            self.run(n['body'], fr, out)
        except Ambiguous:
            leave = True
            raise
        except Exception as e:
            if isinstance(e, (_Stop, _Break, _Continue)):
                raise
            if n['exc'] and isinstance(e, {'ValueError': ValueError,
                                           'Exception': Exception,
                                           'KeyError': KeyError}[n['exc']]):
                self.stat('caught-by-template')
                try:
                    self.run(n['handler'], fr, out)
                except Ambiguous:
                    leave = True
                    raise
            else:
                raise
        finally:
            # the finally part runs for every way out except our own signals
            if n['finally'] and not leave:
                self.run(n['finally'], fr, out)


class Frame(object):
    pass


def find_block(body, name):
    for n in walk(body):
        if n['k'] == 'block' and n['n'] == name:
            return n
    return None


def walk(body):
    for n in body:
        yield n
        for k in ('body', 'else', 'handler', 'finally', 'argb'):
            for x in walk(n.get(k) or ()):
                yield x


def all_nodes(p):
    lists = [p['main']['body']]
    for k in ('defs', 'over', 'files', 'srcs'):
        lists += [d['body'] for d in p.get(k) or ()]
    for b in lists:
        for n in walk(b):
            yield n


def repair(p):
    """Drop nodes a shrink step left dangling; None if hopeless."""
    defs = [d['name'] for d in p['defs']]
    blocks = [n['n'] for n in walk(p['main']['body']) if n['k'] == 'block']

    def fix(body):
        out = []
        for n in body:
            if n['k'] == 'call0' and n['m'] not in defs:
                continue
            if n['k'] == 'include':
                lst = p['files'] if n['kind'] == 'file' else p['srcs']
                if n['n'] >= len(lst):
                    continue
            for k in ('body', 'else', 'handler', 'finally', 'argb'):
                if n.get(k):
                    n[k] = fix(n[k])
                if k in ('body', 'handler') and n.get(k) == []:
                    n[k] = [{'k': 'text', 'id': 0, 'f': 0}]
            out.append(n)
        return out
    p['main']['body'] = fix(p['main']['body'])
    for k in ('defs', 'over', 'files', 'srcs'):
        for d in p.get(k) or ():
            d['body'] = fix(d['body'])
    if p.get('gen') and (not p['main']['body'] or
                         p['main']['body'][-1]['k'] != 'yield'):
        p['main']['body'].append({'k': 'yield'})
    if 'over' in p:
        p['over'] = [d for d in p['over'] if d['name'] in defs + blocks]
    return p
