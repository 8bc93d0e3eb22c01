"""C12: edited template files show up in the next compile, include or
monitored fill."""
import importlib.machinery
import os
import sys
import types
import warnings

from .. import rig
from ..clock import CLOCK
from ..engine import Prop, Violation
from ..fs import FS

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        import pkg_resources
    except ImportError:
        pkg_resources = None

NFILES = 4
BROKEN = ['#if $x', '${open(', '#set $y = (1 + ]', 'a #end if#']
MONITOR_ERR = "moduleName"
PACKAGE = 'simc12pk'


def turbo(workdir):
    """A TurboCheetah engine and the package of its templates; None where
    its dependency is not installed."""
    if pkg_resources is None:
        return None
    from Cheetah.Tools.turbocheetah import TurboCheetah
    pk = types.ModuleType(PACKAGE)
    pk.__file__ = os.path.join(workdir, '__init__.py')
    pk.__path__ = [workdir]
    pk.__loader__ = importlib.machinery.SourceFileLoader(PACKAGE, pk.__file__)
    forget()
    sys.modules[PACKAGE] = pk
    return TurboCheetah()


def forget():
    for name in [n for n in sys.modules if n.split('.')[0] == PACKAGE]:
        del sys.modules[name]


class DiskError(Exception):
    """Reference: the file cannot be read."""


class Broken(Exception):
    """Reference: the file does not compile."""


def source(pieces, ext):
    if isinstance(pieces, int):
        return BROKEN[pieces]
    out = []
    for p in pieces:
        if p[0] == 't':
            out.append('t%d;' % p[1])
        elif p[0] == 'v':
            out.append('$v.x%d;' % p[1])
        elif p[0] == 'i':
            s = '#include %s"f%d%s"#' % ('raw ' if p[2] else '', p[1], ext)
            if p[3] is not None:
                s = '#if $on(%d)#%s#end if#' % (p[3], s)
            out.append('<' + s + '>')
    return ''.join(out)


class Inst(object):
    """Reference: an instance made from one version of a file."""

    def __init__(self, pieces):
        self.pieces = pieces
        self.inc = {}

    def clone(self):
        i = Inst(self.pieces)
        i.inc = dict((k, v.clone() if isinstance(v, Inst) else v)
                     for k, v in self.inc.items())
        return i

    def fill(self, on, load, ext):
        out = []
        for p in self.pieces:
            if p[0] == 't':
                out.append('t%d;' % p[1])
            elif p[0] == 'v':
                out.append('V%d;' % p[1])
            else:
                out.append('<')
                if p[3] is None or p[3] in on:
                    key = (p[1], p[2])
                    if key not in self.inc:
                        got = load(p[1])
                        if p[2]:
                            self.inc[key] = source(got, ext)
                        else:
                            if isinstance(got, int):
                                raise Broken(got)
                            self.inc[key] = Inst(got)
                    x = self.inc[key]
                    out.append(x if p[2] else x.fill(on, load, ext))
                out.append('>')
        return ''.join(out)


class Loader(object):
    """Reference: what a read of a file gives.  With an edit or a fault
    somewhere inside the operation, `at` chooses before which read it
    falls."""

    def __init__(self, disk, at=None, mid=None):
        self.disk, self.at, self.mid = disk, at, mid
        self.n = 0

    def __call__(self, f):
        disk = self.disk
        if self.mid is None:
            self.n += 1
            if self.at is not None and self.n == self.at:
                raise DiskError('fault')
        elif f == self.mid[0]:
            self.n += 1
            if self.at is not None and self.n >= self.at:
                disk = dict(disk)
                disk[f] = self.mid[1]
        got = disk.get(f)
        if got is None:
            raise DiskError('missing')
        return got


class C12(Prop):
    id = 'C12'
    quick_runs = 22000
    thorough_runs = 200000
    quick_cap = 60
    pure_share = 0.05
    rule = ('a seed makes four template files that include one another (raw '
            'or not, some only when a flag is up) and a history of edits, '
            'deletions, broken versions, repairs and touches with the clock '
            'moving by milliseconds to days, compiles in several ways, renders '
            'by the TurboCheetah engine, new instances, fills of old and new instances; some operations meet '
            'a failing or short read, and in some a file is edited between '
            'two of their file operations. Non-trivial: a file that had been '
            'used was changed and used again.')
    measure = 'distinct complete event logs (operations and texts)'
    real = ['Template.compile with its cache, Template(file=), include '
            'handling, TurboCheetah.render, compiler, generated code, real '
            'files']
    stubbed = ['clock and file times', 'file faults', 'user objects']
    assumptions = ['every change of a file gives it a later modification '
                   'time than it ever had', 'a file is replaced in one step']

    # ------------------------------------------------------------ plans
    def content(self, rng, f):
        if rng.random() < 0.1:
            return rng.randrange(len(BROKEN))
        out = []
        for _ in range(rng.choice([1, 2, 3])):
            self.next += 1
            x = rng.random()
            if x < 0.45 or f == NFILES - 1 and x < 0.7:
                out.append(['t', self.next])
            elif x < 0.6 or f == NFILES - 1:
                out.append(['v', self.next])
            else:
                out.append(['i', rng.randrange(f + 1, NFILES),
                            rng.random() < 0.25,
                            rng.choice([None, 0, 1])])
        return out

    def gen(self, rng, tier):
        self.next = 0
        turbo = rng.random() < 0.4
        files = [self.content(rng, f) for f in range(NFILES)]
        files[0] = [p for _ in range(2) for p in (
            self.content(rng, 0),) if not isinstance(p, int)] or [[]]
        files[0] = sum(files[0], [])
        ops = []
        nc = 0
        for _ in range(rng.randrange(4, 14 if tier == 'quick' else 26)):
            x = rng.random()
            if x < 0.24 or not nc:
                nc += 1
                op = {'op': 'compile', 'file': rng.choice([0, 0, 0, 1, 2]),
                      'how': rng.choice(['plain', 'plain', 'class', 'direct',
                                         'nocache', 'settings'])}
                if rng.random() < 0.08:
                    op['how'] = 'monitor'
            elif x < 0.36 and turbo and rng.random() < 0.6:
                op = {'op': 'turbo', 'file': rng.choice([0, 0, 1, 2])}
            elif x < 0.36:
                op = {'op': 'inst', 'cls': rng.randrange(8)}
            elif x < 0.62:
                op = {'op': 'fill', 'inst': rng.choice([-1, -1,
                                                        rng.randrange(8)])}
            else:
                op = {'op': rng.choice(['edit', 'edit', 'edit', 'edit',
                                        'delete', 'break', 'touch']),
                      'file': rng.randrange(NFILES)}
                if op['op'] == 'edit':
                    op['new'] = self.content(rng, op['file'])
                elif op['op'] == 'break':
                    op['new'] = rng.randrange(len(BROKEN))
                op['dt'] = rng.choice([0.00005, 0.01, 0.9, 1.0, 61.5,
                                       90000.25])
            if op['op'] in ('compile', 'inst', 'fill', 'turbo'):
                op['on'] = rng.choice([[], [0], [1], [0, 1]])
                y = rng.random()
                if y < 0.12:
                    op['fault'] = [rng.randrange(1, 12),
                                   rng.choice(['eio', 'eacces', 'emfile',
                                               'short', 'enoent'])]
                elif y < 0.3:
                    f = rng.randrange(NFILES)
                    op['mid'] = [rng.randrange(1, 14), f,
                                 rng.choice([self.content(rng, f),
                                             self.content(rng, f), None])]
            ops.append(op)
        return {'files': files, 'ops': ops}

    # ------------------------------------------------------------ running
    def put(self, f, pieces):
        path = os.path.join(self.workdir, 'f%d%s' % (f, self.ext))
        if pieces is None:
            try:
                os.remove(path)
            except OSError:
                pass
            self.disk[f] = None
            return
        tmp = path + '.new'
        with open(tmp, 'wb') as fh:
            fh.write(source(pieces, self.ext).encode('ascii'))
        ns = max(int(CLOCK.now * 1e9), self.last.get(f, 0) + 20000)
        self.last[f] = ns
        os.utime(tmp, ns=(ns, ns))
        os.rename(tmp, path)
        self.disk[f] = pieces

    def run(self, plan, res, workdir):
        self.workdir = workdir
        self.ext = '.tmpl'
        self.disk = {}
        self.last = {}
        for f, pieces in enumerate(plan['files']):
            self.put(f, pieces)
        self.classes = []       # (class, candidate contents, file)
        self.insts = []
        self.used = {}
        self.changed_used = 0
        self.monitored = False
        self.turbo = None
        if any(op['op'] == 'turbo' for op in plan['ops']):
            self.turbo = turbo(workdir)
        try:
            for i, op in enumerate(plan['ops']):
                CLOCK.advance(0.001)
                self.step(i, op, res)
        finally:
            forget()
        res.nontrivial = self.changed_used > 0

    def version(self, f):
        return self.last.get(f), self.disk.get(f) is None

    def note_use(self, f):
        v = self.version(f)
        if f in self.used and self.used[f] != v:
            self.changed_used += 1
        self.used[f] = v

    def guarded(self, op, fn, res):
        """Run a real operation with its fault or its edit in the middle.
        Returns (outcome, disk before, how the reference may choose)."""
        disk = dict(self.disk)
        fault, mid = op.get('fault'), op.get('mid')
        if mid and mid[2] == disk.get(mid[1]):
            mid = None
        fired = []
        if fault:
            FS.begin(self.workdir, dict([fault]))
            FS.stat_faults = True
        elif mid:
            def on_point(o, path):
                if FS.count + 1 == mid[0] and not fired:
                    fired.append(1)
                    FS.active = False
                    CLOCK.advance(0.002)
                    self.put(mid[1], mid[2])
                    FS.active = True
            FS.begin(self.workdir, {}, on_point=on_point)
        try:
            try:
                got = ('ok', fn())
            except Exception as e:
                got = ('exc', e)
        finally:
            if fault or mid:
                FS.end()
                FS.stat_faults = False
        if fault and FS.fired:
            for k, v in FS.fired.items():
                res.fault('disk-' + k, v)
            return got, disk, ('fault', None)
        if mid and fired:
            res.fault('edit-during-operation')
            return got, disk, ('mid', [mid[1], mid[2]])
        return got, disk, (None, None)

    def loaders(self, disk, choice):
        """All readings of the files that are possible."""
        kind, arg = choice
        yield lambda: Loader(disk)
        if kind == 'fault':
            for at in range(1, 9):
                yield lambda at=at: Loader(disk, at)
        elif kind == 'mid':
            for at in range(1, 9):
                yield lambda at=at: Loader(disk, at, arg)

    def outcome(self, got):
        from Cheetah.Parser import ParseError
        if got[0] == 'ok':
            return got
        e = got[1]
        if isinstance(e, OSError):
            return ('disk', None)
        if isinstance(e, (ParseError, IndexError)):
            return ('broken', None)     # how the parser says it
        return ('other', '%s: %s' % (type(e).__name__, rig.brief(e)))

    def step(self, i, op, res):
        from Cheetah.Template import Template
        k = op['op']
        if k in ('edit', 'break', 'delete', 'touch'):
            CLOCK.advance(op['dt'])
            f = op['file']
            self.put(f, op.get('new') if k != 'touch' else self.disk.get(f))
            res.fault('file-' + k)
            res.log('%s f%d' % (k, f))
            return
        if k == 'compile':
            f = op['file']
            path = os.path.join(self.workdir, 'f%d%s' % (f, self.ext))
            kw = {}
            if op['how'] == 'class':
                kw = dict(className='K%d' % f, moduleName='c12mod%d' % f)
            elif op['how'] == 'nocache':
                kw = dict(useCache=False, cacheCompilationResults=False)
            elif op['how'] == 'settings':
                kw = dict(compilerSettings={'useStackFrames': False})
            elif op['how'] == 'monitor':
                kw = dict(compilerSettings={'monitorSrcFile': True})
            self.note_use(f)
            if op['how'] == 'direct':
                def fn():
                    return Template(file=path, searchList=[self.ns()])
            else:
                def fn():
                    return Template.compile(file=path, **kw)
            got, disk, choice = self.guarded(op, fn, res)
            real = self.outcome(got)
            cands = []
            wanted = []
            for mk in self.loaders(disk, choice):
                try:
                    pieces = mk()(f)
                    want = ('broken', None) if isinstance(pieces, int) \
                        else ('ok', pieces)
                except DiskError:
                    want = ('disk', None)
                wanted.append(want)
                if want[0] == real[0] and want[1] not in cands:
                    cands.append(want[1])
            res.checks += 1
            res.log('compile f%d %s -> %s' % (f, op['how'], real[0]))
            if not cands:
                raise Violation('wrong-compile', 'operation %d, compile of '
                                'f%d: gave %s, expected %s'
                                % (i, f, real, wanted[0]))
            if real[0] != 'ok':
                res.probe('compile-' + real[0])
                return
            entry = {'cands': cands, 'file': f, 'path': path,
                     'monitor': op['how'] == 'monitor',
                     'seen': self.last.get(f), 'mid': choice[0] == 'mid'}
            if op['how'] == 'direct':
                self.add(dict(entry), got[1])
            else:
                entry['cls'] = got[1]
                self.classes.append(entry)
                self.add(entry, got[1](searchList=[self.ns()]))
            self.fill(i, {'on': op['on']}, self.insts[-1], res)
        elif k == 'turbo':
            self.render(i, op, res)
        elif k == 'inst':
            if not self.classes:
                return
            c = self.classes[op['cls'] % len(self.classes)]
            self.add(c, c['cls'](searchList=[self.ns()]))
            self.fill(i, op, self.insts[-1], res)
        else:
            if not self.insts:
                return
            self.fill(i, op, self.insts[op['inst'] % len(self.insts)
                                        if op['inst'] >= 0 else -1], res)

    def ns(self):
        vals = dict(('x%d' % n, 'V%d' % n) for n in range(400))
        return {'v': vals, 'on': lambda n: n in self.on}

    def add(self, entry, t):
        self.insts.append({'t': t, 'n': len(self.insts), 'entry': entry,
                           'cands': [Inst(p) for p in entry['cands']]})

    def fill(self, i, op, x, res):
        self.on = op['on']
        e = x['entry']
        edited = e['monitor'] and not e['mid'] and \
            self.disk.get(e['file']) is not None and \
            self.last.get(e['file']) != e['seen']
        got, disk, choice = self.guarded(
            op, lambda: str(x['t']), res)
        real = self.outcome(got)
        res.checks += 1
        res.log('fill %d on %s -> %s' % (x['n'], op['on'], real))
        if x.get('lost'):
            return          # after the listed finding, see below
        if e['monitor'] and (edited or e['mid'] or choice[0] is not None):
            return self.monitored_fill(i, op, x, real, edited and
                                       choice[0] is None, res)
        cands, wanted = [], []
        for c in x['cands']:
            for mk in self.loaders(disk, choice):
                s = c.clone()
                try:
                    want = ('ok', s.fill(op['on'], mk(), self.ext))
                except DiskError:
                    want = ('disk', None)
                except Broken:
                    want = ('broken', None)
                wanted.append(want)
                if want == real:
                    cands.append(s)
        if not cands:
            raise Violation(
                'wrong-fill', 'operation %d, fill of instance %d (of f%d): '
                'gave %s, expected %s' % (i, x['n'], e['file'], real,
                                          wanted[0]))
        for c in cands:
            self.uses(c)
        if real[0] != 'ok':
            res.probe('fill-' + real[0])
        x['cands'] = cands[:12]

    def render(self, i, op, res):
        """The engine finds the template in its package each time."""
        if self.turbo is None:
            return
        f = op['file']
        self.on = op['on']
        self.note_use(f)
        got, disk, choice = self.guarded(
            op, lambda: self.turbo.render(
                self.ns(), template='%s.f%d' % (PACKAGE, f)), res)
        real = self.outcome(got)
        res.checks += 1
        res.log('render f%d -> %s' % (f, real))
        wanted = []
        for mk in self.loaders(disk, choice):
            load = mk()
            try:
                pieces = load(f)
                if isinstance(pieces, int):
                    raise Broken(pieces)
                s = Inst(pieces)
                want = ('ok', s.fill(op['on'], load, self.ext))
            except DiskError:
                want = ('disk', None)
            except Broken:
                want = ('broken', None)
            wanted.append(want)
            if want == real:
                break
        else:
            raise Violation(
                'wrong-render', 'operation %d, render of f%d by its name: '
                'gave %s, expected %s' % (i, f, real, wanted[0]))
        res.probe('render-' + real[0])

    def uses(self, c):
        for (f, raw), v in c.inc.items():
            self.note_use(f)
            if isinstance(v, Inst):
                self.uses(v)

    def monitored_fill(self, i, op, x, real, must, res):
        """The file of a monitored template was changed.  After the listed
        finding the instance has noted the new time and shows the old text;
        that is the same failure and not judged again."""
        if real[0] == 'other' and MONITOR_ERR in real[1]:
            x['lost'] = True
        if not must:
            x['lost'] = True        # the reference has lost track of it
            return
        e = x['entry']
        pieces = self.disk[e['file']]
        res.probe('monitored-fill-after-edit')
        if isinstance(pieces, int):
            return          # an error, or the previous text
        try:
            want = ('ok', Inst(pieces).fill(op['on'], Loader(self.disk),
                                            self.ext))
        except (DiskError, Broken):
            return
        if real != want and not self.monitored:
            self.monitored = True
            res.violate('monitored-fill', 'operation %d, fill of monitored '
                        'instance %d after an edit: gave %s, expected %s'
                        % (i, x['n'], real, want))


PROP = C12()
