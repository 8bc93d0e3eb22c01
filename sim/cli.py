"""Command-line runs: trees of templates, options, expected outputs, and a
process that runs CheetahWrapper as the `cheetah` command would."""
import io
import json
import os
import pickle
import sys

from .clock import CLOCK
from .fs import FS
from .props.c09 import namespace, output, source

BROKEN = ['#if $x\n', '${x(', '#set $y = (1 + ]\n', 'a #end if#']
FAILING = ['before\n$nosuchname\nafter\n', 'x\n#silent 1 // 0\n',
           'y\n#raise ValueError("z")\n']


def gen_tree(rng, tier, ntmpl, bad=0.12):
    cmd = rng.choice(['compile', 'fill', 'fill'])
    o = {'cmd': cmd, 'idir': rng.choice(['', '', 'in']),
         'odir': rng.choice(['', '', 'out', 'out/x']),
         'flat': rng.random() < 0.15, 'nobackup': rng.random() < 0.15,
         'oext': rng.choice([None, None, 'txt']),
         'recurse': rng.random() < 0.25, 'quiet': rng.random() < 0.3,
         'encoding': rng.choice([None, None, 'utf-8']),
         'ns': rng.choice(['json', 'pickle']) if cmd == 'fill' else None,
         'iext': rng.choice([None, None, None, 'ct', '.ct']),
         'how': rng.choice([None, None, 'dirs', 'abs', 'slash']),
         'dirorder': rng.randrange(3)}
    tm = []
    for i in range(ntmpl):
        body = []
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice(['t', 't', 'v', 'for', 'set', 'u'])
            body.append([k, rng.randrange(1, 6) if k == 'for'
                         else rng.randrange(1, 200)])
        t = dict(body=body, rep=rng.choice([1, 1, 1, 1, 4, 25]), base=None,
                 dir=rng.choice(['', '', '', 'sub', 'sub', 'sub/deep',
                                 'sub/deep', 'two', 'two', 'd.tmpl', 'in']),
                 mid=rng.random() < 0.1,
                 bad=None, old=rng.random() < 0.6, bak=rng.random() < 0.3,
                 oldsize=rng.choice([1, 3, 3000]),
                 ext=rng.random() < 0.5)
        t['enc'] = any(p[0] == 'u' for p in body)
        if rng.random() < bad:
            if cmd == 'fill' and rng.random() < 0.5:
                t['bad'] = ['fill', rng.randrange(len(FAILING))]
            else:
                t['bad'] = ['source', rng.randrange(len(BROKEN))]
        tm.append(t)
    if o['flat'] and ntmpl > 1 and rng.random() < 0.2:
        tm[1]['name'] = 0
        tm[0]['dir'], tm[1]['dir'] = '', 'sub'
    return {'opts': o, 'tmpl': tm}


def distinct(plan):
    t = Tree(plan, '')
    n = len(t.tmpl)
    return n and len(set(t.src(i) for i in range(n))) == n


class Tree(object):
    def __init__(self, plan, root):
        self.o = plan['opts']
        self.tmpl = plan['tmpl']
        self.root = root

    def name(self, i):
        t = self.tmpl[i]
        # the extension of the sources may also be in the middle of a name
        return 'n%d%s' % (t.get('name', i), self.iext() + '2'
                          if t.get('mid') and self.o['cmd'] == 'fill'
                          else '')

    def collides(self):
        d = [self.dst(i) for i in range(len(self.tmpl))]
        return len(set(d)) < len(d)

    def src(self, i):
        return os.path.join(self.o['idir'], self.tmpl[i]['dir'],
                            self.name(i) + self.iext())

    def iext(self):
        e = self.o.get('iext') or 'tmpl'
        return e if e[0] == '.' else '.' + e

    def dst(self, i):
        o = self.o
        ext = '.' + (o['oext'] or ('py' if o['cmd'] == 'compile'
                                   else 'html'))
        d = '' if o['flat'] else self.tmpl[i]['dir']
        return os.path.join(o['odir'], d, self.name(i) + ext)

    def bak(self, i):
        return self.dst(i) + '.bak'

    def source(self, i):
        t = self.tmpl[i]
        if t['bad'] and t['bad'][0] == 'source':
            return BROKEN[t['bad'][1]].encode('utf-8')
        if t['bad']:
            return FAILING[t['bad'][1]].encode('utf-8')
        return source(t).encode('utf-8')

    def old(self, i):
        return (u'old %s \u20ac\n' % self.name(i)).encode('utf-8') \
            * self.tmpl[i]['oldsize']

    def oldbak(self, i):
        return b'older backup of %d\n' % i

    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (CLOCK.now, CLOCK.now))

    def get(self, rel):
        try:
            with open(os.path.join(self.root, rel), 'rb') as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def build(self):
        os.mkdir(self.root)
        if self.o['idir']:
            os.mkdir(os.path.join(self.root, self.o['idir']))
        for i, t in enumerate(self.tmpl):
            self.put(self.src(i), self.source(i))
            if t['old']:
                self.put(self.dst(i), self.old(i))
            if t['bak']:
                self.put(self.bak(i), self.oldbak(i))
        if self.o['ns'] == 'json':
            self.put('ns.json', json.dumps(namespace()).encode('ascii'))
        elif self.o['ns'] == 'pickle':
            self.put('ns.pickle', pickle.dumps(namespace(), 2))

    def argv(self, **over):
        o = dict(self.o, **over)
        a = ['cheetah', o['cmd']]
        how = o.get('how')
        for k in ('idir', 'odir', 'oext', 'iext', 'encoding'):
            if o.get(k):
                a += ['--' + k, o[k] + '/' if how == 'slash'
                      and k in ('idir', 'odir') else o[k]]
        for k in ('flat', 'nobackup', 'quiet'):
            if o[k]:
                a.append('--' + k)
        if o.get('stdout'):
            a.append('--stdout')
        if o.get('parallel'):
            a.append('--parallel=%d' % o['parallel'])
        if o['ns']:
            a += ['--' + o['ns'], 'ns.' + o['ns']]
        if o.get('stdin'):
            a.append('-')
        elif o['recurse'] and how == 'dirs':
            a.append('-R')
            given = []
            for i, t in enumerate(self.tmpl):
                p = t['dir'].split('/')[0] if t['dir'] \
                    else self.name(i) + self.iext()
                if p not in given:
                    given.append(p)
            a += given
        elif o['recurse']:
            a.append('-R')
        else:
            for i, t in enumerate(self.tmpl):
                p = os.path.join(t['dir'], self.name(i))
                if how == 'abs' and not o['idir'] and (
                        o['flat'] or not o['odir']):
                    p = os.path.join(self.root, p)
                a.append(p + self.iext() if t['ext'] else p)
        return a

    def snapshot(self):
        out = {}
        for d, dirs, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, self.root)] = fh.read()
        return out

    def expected(self, i):
        """What the library gives for source i, as file content; runs in a
        process of its own, because it is the reference."""
        t = self.tmpl[i]
        if self.o['cmd'] == 'fill':
            return output(t).encode('utf-8')
        return None

    def complete(self, i, data):
        """Is this the complete output for source i?  None, or what is
        wrong with it."""
        t = self.tmpl[i]
        if data is None:
            return 'missing'
        if self.o['cmd'] == 'fill':
            want = output(t).encode('utf-8')
            if data != want:
                return '%r instead of %r' % (data[:200], want[:200])
            return None
        # compiled: the class it defines must render the template, and no
        # part of the module may be missing
        try:
            text = data.decode('utf-8')
            ns = {'__name__': 'compiled_%d' % i}
            exec(compile(text, self.dst(i), 'exec'), ns)
            got = str(ns[self.name(i)](searchList=[namespace()]))
        except Exception as e:
            return 'a module that fails: %s: %s' % (type(e).__name__, e)
        if got != output(t):
            return 'a module that renders %r instead of %r' % (
                got[:200], output(t)[:200])
        return None


class Scan(object):
    """os.scandir() in an order the plan chooses."""

    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def order_directories(how):
    real = os.scandir

    def scandir(*a):
        with real(*a) as it:
            e = sorted(it, key=lambda x: x.name)
        if how == 1:
            e.reverse()
        elif how == 2:
            e = e[1::2] + e[::2]
        return Scan(e)
    os.scandir = scandir


last_error = ['']


def run_command(argv, stdout, stdin=None):
    """What the interpreter does around the command; the exit status."""
    from Cheetah.CheetahWrapper import CheetahWrapper
    sys.argv = list(argv)
    sys.stdout = stdout
    if stdin is not None:
        sys.stdin = stdin
    sys.stderr = io.StringIO()
    try:
        CheetahWrapper().main(sys.argv)
        status = 0
    except SystemExit as e:
        c = e.code
        last_error[0] = 'exit %s' % (c,)
        status = 0 if c is None else (c & 0xff) if isinstance(c, int) else 1
    except KeyboardInterrupt:
        status = 130
    except BaseException as e:
        last_error[0] = '%s: %s' % (type(e).__name__, e)
        status = 1
    try:
        stdout.flush()
    except Exception:
        if status == 0:
            status = 120
    return status
