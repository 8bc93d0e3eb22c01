"""C06: streaming to a response delivers the same text, in order, once."""
from .. import rig, tmpl
from ..clock import CLOCK
from ..engine import Prop, Violation

KINDS = rig.ALL_KINDS
PLAIN = KINDS - {'cache', 'cph', 'setg', 'try'}


class Gone(BaseException):
    """The client went away; nothing in a template catches this."""


class AttGen(tmpl.Gen):
    """With an attached transaction a method called under a filter is
    filtered once, not twice: keep method calls out of filter regions."""

    def n_filter(self, d, k):
        f = self.a_filter()
        save = self.ctx
        self.ctx = dict(save, plain=True)
        n = {'k': k, 'f': f, 'body': self.sub(d)}
        self.ctx = save
        return n


class C06(Prop):
    id = 'C06'
    quick_runs = 18000
    thorough_runs = 150000
    quick_cap = 45
    pure_share = 0.1
    rule = ('a seed makes a template program, and a history of fills of one '
            'instance to a string, to a response passed to the call, or to a '
            'response attached to the instance; some responses fail at their '
            'n-th write. Non-trivial: a streamed fill made at least three '
            'writes, and the program contains a method call, include, block, '
            'capture, call, cache or filter region.')
    measure = 'distinct complete event logs (writes and texts, in order)'
    real = ['Cheetah compiler, parser, generated code, Template, '
            'DummyTransaction, filters, CacheRegion, NameMapper']
    stubbed = ['clock', 'random source', 'user objects',
               'response and transaction objects']
    assumptions = ['with an attached response, methods are called as plain '
                   'placeholders outside filter regions, and no error is caught '
                   'after a method has streamed part of its text']

    def gen(self, rng, tier):
        if rng.random() < 0.01:
            return {'transform': rng.choice(['WebSafe', 'EncodeUnicode']),
                    'ops': [rng.choice(['str', 'trans', 'attached'])
                            for _ in range(rng.randrange(1, 4))]}
        mode = rng.choice(['trans', 'attached', 'attached'])
        fail = rng.random() < 0.45
        kinds = PLAIN if fail else KINDS
        if mode == 'attached' and not fail:
            # a finally part or handler runs after part of a method's output
            # has gone out: only an error could tell the two apart
            kinds = kinds - {'raise', 'nope', 'assert', 'fa'}
        catch = rng.random() < 0.1
        if catch and mode == 'attached':
            # likewise when an error catcher replaces a method's output
            kinds = kinds - {'raise', 'nope', 'assert', 'fa'}
        cls = AttGen if mode == 'attached' else tmpl.Gen
        g = cls(rng, kinds, size=rng.choice([8, 14, 22]), depth=4,
                ndefs=rng.choice([0, 1, 2, 3]), nfiles=rng.choice([0, 1, 2]),
                nsrcs=rng.choice([0, 0, 1]), inherit=rng.random() < 0.3,
                catch=catch, stateful=not fail)
        g.WEIGHT = dict(g.WEIGHT, call0=5, include=3, block=3, capture=3,
                        cache=3, stop=0.4, nope=0.2, **{'raise': 0.3})
        prog = g.program()
        ops = []
        for _ in range(rng.randrange(2, 7)):
            m = rng.choice([mode, mode, mode, 'str'])
            ops.append(['fill', m])
            if fail and m != 'str' and rng.random() < 0.6:
                ops[-1].append(rng.choice([rng.randrange(1, 6),
                                           rng.randrange(1, 30)]))
            if rng.random() < 0.2:
                ops.append(['clock', rng.choice([1.3, 6.1, 100.7])])
        ops += [['fill', mode], ['fill', 'str']]
        user = {'make': rig.how_made(rng)}
        if mode == 'trans' and rng.random() < 0.2:
            user['filter'] = rng.choice(['WebSafe', 'Strip'])
        return {'prog': prog, 'ops': ops, 'user': user}

    def repair(self, plan):
        if 'transform' in plan:
            return plan
        tmpl.repair(plan['prog'])
        return plan

    def transform(self, plan, res):
        """A #transform directive filters the whole output."""
        from Cheetah.Template import Template
        cls = Template.compile(source='#from Cheetah.Filters import %s\n'
                               '#transform %s\na b $x c\n'
                               % ((plan['transform'],) * 2))
        for mode in plan['ops']:
            t = cls(searchList=[{'x': '<y>'}])
            resp = rig.Chunks()
            text = t.respond()
            if mode == 'str':
                continue
            if mode == 'trans':
                got = t.respond(rig.Trans(resp))
            else:
                t.transaction = rig.Trans(resp)
                got = t.respond()
            res.checks += 1
            res.log('%s %r %r' % (mode, text, resp.getvalue()))
            if resp.getvalue() == '' and got == '':
                raise Violation('transform-lost', 'nothing of %r reaches a '
                                'response (%s)' % (text, mode))
            if resp.getvalue() != text:
                raise Violation('stream-differs', 'with #transform %r '
                                'is written, expected %r'
                                % (resp.getvalue(), text))

    def run(self, plan, res, workdir):
        if 'transform' in plan:
            return self.transform(plan, res)
        R = rig.Rig(plan['prog'], workdir)
        x = R.instance('A', plan['user'])
        kinds = set(n['k'] for n in tmpl.all_nodes(plan['prog']))
        writes = 0
        for op in plan['ops']:
            if op[0] == 'clock':
                CLOCK.advance(op[1])
                continue
            resp = rig.Chunks()
            if len(op) > 2:
                resp.fail_at = op[2]
                resp.exc = None
            x.begin()
            now = CLOCK.now
            if len(op) > 2:
                self.failing(x, op, resp, res)
                continue
            real = x.real_fill(op[1], resp)
            want = x.ref_fill(now)
            x.judge(real, want, res, cls='stream-differs',
                    what='%s ' % op[1])
            if op[1] != 'str':
                writes = max(writes, resp.nwrites)
                if want[0] == 'exc':
                    # what went out before the error is a prefix of what the
                    # reference had produced
                    got = resp.getvalue()
                    res.checks += 1
                    if op[1] == 'trans' and got != x.ref.partial:
                        raise Violation('stream-differs', 'before the error '
                                        '%r was written, expected %r'
                                        % (got, x.ref.partial))
        x.finish(res)
        res.nontrivial = writes >= 3 and bool(
            kinds & {'call0', 'include', 'block', 'capture', 'call', 'cache',
                     'filter', 'call2'})

    def failing(self, x, op, resp, res):
        boom = Gone('client gone')
        calls = dict(x.u.counts)

        def write(s, orig=rig.Chunks.write):
            resp.nwrites += 1
            if resp.raised is not None:
                resp.after += 1
                raise resp.raised
            if resp.nwrites == resp.fail_at:
                resp.raised = boom
                raise boom
            resp.parts.append(s)
        resp.write = write
        real = x.real_fill(op[1], resp)
        after = dict(x.u.counts)
        want = x.ref_fill(CLOCK.now)
        got = resp.getvalue()
        if resp.raised is None:
            x.judge(real, want, res, cls='stream-differs')
            return
        res.fault('response-write-failed')
        res.checks += 1
        res.log('%s failed at write %d after %r' % (op[1], resp.nwrites, got))
        if real != ('exc', boom):
            raise Violation('write-error-lost', 'the response failed at write '
                            '%d but the fill ended with %r'
                            % (op[2], real))
        full = want[1] if want[0] == 'ok' else x.ref.partial
        if want[0] == 'exc' and op[1] == 'attached':
            full = None     # part of a failing method goes out as well
        if full is not None and not full.startswith(got):
            raise Violation('not-a-prefix', 'before the failing write %r went '
                            'out, but the full text is %r' % (got, full))
        if resp.after:
            raise Violation('written-after-error', '%d more writes after the '
                            'response had failed' % resp.after)
        x.ref.u.counts = after


PROP = C06()
