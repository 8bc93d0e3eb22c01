"""Runs template programs on the real code next to the reference."""
import os
import sys

from . import sched, tmpl
from .clock import CLOCK
from .engine import Violation

ALL_KINDS = frozenset(tmpl.Gen.LEAF + tmpl.Gen.DEEP) - {'yield', 'lines'}


class Chunks(object):
    """A response object: records every write, may fail at one."""

    def __init__(self, fail_at=None, exc=None):
        self.parts = []
        self.fail_at = fail_at
        self.exc = exc
        self.raised = None
        self.after = 0
        self.nwrites = 0

    def write(self, s):
        self.nwrites += 1
        if self.raised is not None:
            self.after += 1
            raise self.raised
        if self.fail_at is not None and self.nwrites == self.fail_at:
            self.raised = tmpl.make_exc(self.exc, '%s write %d'
                                        % (tmpl.MARK, self.nwrites))
            raise self.raised
        self.parts.append(s)

    def getvalue(self):
        return u''.join(self.parts)

    def flush(self):
        pass


class Trans(object):
    """A transaction as a web framework would pass it."""

    def __init__(self, resp):
        self._resp = resp

    def response(self):
        return self._resp

    def request(self):
        return None


def how_made(rng):
    """How an instance is made: bit 0 'namespaces=', bit 1 from source."""
    return rng.choice([0, 0, 0, 1, 2, 3])


def point(key):
    s = sched.SCHED
    if s is not None:
        s.point('user')


class Rig(object):
    def __init__(self, prog, workdir, name='P', compile_kw=None, store=None,
                 prefix=''):
        from Cheetah.Template import Template
        self.prog = prog
        self.workdir = workdir
        self.base_cls = None
        self.Template, self.store, self.compile_kw = Template, store, compile_kw
        for i, s in enumerate(tmpl.file_sources(prog)):
            with open(os.path.join(workdir, prefix + 'f%d.tmpl' % i), 'wb') as f:
                f.write(s.encode('ascii'))
        self.sources = tmpl.src_sources(prog)
        self.src = tmpl.main_source(prog)
        kw = dict(compile_kw or {})
        base = Template
        self.cls = Template.compile(source=self.src, className=name + 'Base',
                                    moduleName=name + 'BaseMod', **kw)
        if store is not None:
            self.cls._CHEETAH_cacheStore = store
        if 'over' in prog:
            self.base_cls = self.cls
            self.dsrc = tmpl.derived_source(prog, self.cls.__module__,
                                            name + 'Base')
            self.cls = Template.compile(source=self.dsrc,
                                        className=name + 'Drv',
                                        moduleName=name + 'DrvMod', **kw)

    def instance(self, tag, spec, on_call=point, on_slow=None, **kw):
        u = tmpl.User(tag, spec, on_call=on_call,
                      on_slow=on_slow or CLOCK.advance, sources=self.sources)
        kw.setdefault('filtersLib', tmpl.filters_lib())
        if spec.get('filter'):
            kw['filter'] = spec['filter']
        make = spec.get('make') or 0
        kw['namespaces' if make & 1 else 'searchList'] = [tmpl.namespace(u)]
        if make & 2 and self.base_cls is None and self.store is None \
                and not self.compile_kw:
            # from the source, as Template(source, ...) does it
            t = self.Template(self.src, **kw)
        else:
            t = self.cls(**kw)
        return Instance(self, t, u, spec, tag)


class Instance(object):
    def __init__(self, rig, t, u, spec, tag):
        self.rig = rig
        self.t = t
        self.u = u
        self.ref = tmpl.Ref(rig.prog, tmpl.RefUser(tag, spec),
                            (spec.get('filter') or 'none',))
        self.nfill = 0
        self.tag = tag

    def begin(self):
        self.nfill += 1
        self.u.fillno = self.ref.u.fillno = self.nfill

    def real_fill(self, mode='str', resp=None):
        t = self.t
        try:
            if self.rig.prog.get('gen'):
                return ('ok', list(t.respond()))
            if mode == 'str':
                return ('ok', str(t))
            if mode == 'respond':
                return ('ok', t.respond())
            if mode == 'trans':
                r = t.respond(Trans(resp))
                return ('ok', resp.getvalue() + (r or ''))
            if mode == 'attached':
                t.transaction = Trans(resp)
                try:
                    r = t.respond()
                finally:
                    t.transaction = None
                return ('ok', resp.getvalue() + (r or ''))
        except (sched.Deadlock, sched.StepLimit):
            raise
        except BaseException as e:
            return ('exc', e)
        raise AssertionError(mode)

    def ref_fill(self, now):
        try:
            text = self.ref.fill(now)
            if self.rig.prog.get('gen'):
                return ('ok', self.ref.yields)
            return ('ok', text)
        except tmpl.Ambiguous:
            raise
        except BaseException as e:
            return ('exc', e)

    def judge(self, real, want, res, cls='wrong-output', what=''):
        """Compare a real outcome with the reference's."""
        res.checks += 1
        if real[0] == 'exc':
            e = real[1]
            res.log('%s fill %d raised %s: %s' % (
                self.tag, self.nfill, type(e).__name__, brief(e)))
            if want[0] != 'exc':
                raise Violation(
                    'unexpected-error',
                    '%sfill %d of %s raised %s: %s; it should give %r'
                    % (what, self.nfill, self.tag, type(e).__name__, brief(e),
                       want[1]))
            w = want[1]
            if type(e) is not type(w) or (
                    type(w).__name__ != 'NotFound' and str(e) != str(w)):
                raise Violation(
                    'wrong-error', '%sfill %d of %s raised %s: %s instead of '
                    '%s: %s' % (what, self.nfill, self.tag, type(e).__name__,
                                brief(e), type(w).__name__, brief(w)))
            if str(w).find(tmpl.MARK + ' ') >= 0 and not any(
                    r is e for r in self.u.raised):
                raise Violation(
                    'error-replaced', '%sfill %d of %s raised a copy of the '
                    'error, not the error itself: %s'
                    % (what, self.nfill, self.tag, brief(e)))
            res.probe('fill-failed')
            return
        res.log('%s fill %d -> %r' % (self.tag, self.nfill, real[1]))
        if want[0] == 'exc':
            raise Violation(
                'error-swallowed', '%sfill %d of %s should raise %s: %s, but '
                'gave %r' % (what, self.nfill, self.tag,
                             type(want[1]).__name__, brief(want[1]), real[1]))
        if real[1] != want[1]:
            raise Violation(
                cls, '%sfill %d of %s gave %r, expected %r'
                % (what, self.nfill, self.tag, real[1], want[1]))

    def finish(self, res, complete=True):
        if complete and self.rig.prog.get('catch') == 'ListErrors':
            ec = self.t.errorCatcher()
            got = [d['rawCode'] for d in ec.listErrors()] if ec else []
            if got != self.ref.inst.errors:
                raise Violation('wrong-error-list', 'the errors listed for '
                                '%s are %r, expected %r'
                                % (self.tag, got, self.ref.inst.errors))
        for k, v in self.ref.stats.items():
            res.probe(k, v)
        res.fault('user-exception', self.u.nraised)
        res.fault('slow-callback', self.u.nslow)


def brief(e):
    s = str(e).strip().replace('\n', ' / ')
    return s if len(s) < 300 else s[:300] + '...'


def user_keys(prog):
    """Which callbacks a program can make: fault sites."""
    keys = set()
    for n in tmpl.all_nodes(prog):
        k = n['k']
        if k in ('ph',):
            keys.add(tmpl.ph_key(n))
        elif k in ('echo', 'silent', 'set', 'setg', 'cph', 'del'):
            keys.add('v%d' % n['id'])
        elif k == 'call0':
            keys.add('v%d' % n['id'])
        elif k == 'oneif':
            keys.update(['b%d' % n['id'], 'v%d' % n['id2'],
                         'v%d' % n['id3']])
        elif k in ('if', 'unless', 'assert', 'elif'):
            keys.add('b%d' % n['id'])
            if k == 'elif':
                keys.add('b%d' % n['id2'])
        elif k == 'for':
            keys.update(['s%d' % n['id'], 's%di' % n['id']])
        elif k == 'while':
            keys.add('m%d' % n['id'])
        elif k == 'call':
            keys.add('w')
        elif k == 'call2':
            keys.add('x')
        elif k == 'filter' and n['f'] == 'Up':
            keys.add('f')
    return sorted(keys)
