"""C06: secrets (why and where)."""
from gen import *
from model import *
from lang import Fn, Param

PLAN = {'quick': (1800, 625, 300), 'thorough': (120000, 60000, 2400)}
RULE = ('Programs of nested any, all, min and max loops (packed, labelled, with breaks and continues, over ranges and arrays from '
        'the host), explanations given by the user, negation, and/or, comparisons, arithmetic, compound assignment, branches, '
        'calls through functions and closures, and storage in collections; the witness of every intermediate value is read from '
        'the value itself and through why and where inside try. Non-trivial: more than two events.')
TECHNIQUE = 'online trace monitor: the secrets carried by every emitted value and why/where answers compared with a reference interpreter'
NOTE = ('Values reach the monitor with their full list of witnesses. Where the language leaves open which operand\'s witness is '
        'kept, the current choice (the left one; for compound assignment the right one) is the model. Samples programs.')


class G6:
    def __init__(self, rng):
        self.r, self.n, self.fns = rng, 0, []
        self.nv, self.bv, self.loopv = [], [], []
        self.labels = []

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # plain values
    def num(self, d=0):
        r = self.r
        x = r.random()
        if x < .45 and self.loopv:
            return item(r.choice(self.loopv))
        if x < .7:
            return lit(r.choice((0, 1, 2, 3, -1, .5)))
        if x < .85:
            i = r.choice(self.loopv) if self.loopv and r.random() < .7 else None
            e = ('bin', '%', item(i), lit(4)) if i else lit(r.randrange(4))
            return item('d', ('[', e, None))
        if d < 1:
            return ('bin', r.choice('+-*'), self.num(1), self.num(1))
        return item('a')

    def bool(self, d=0):
        return ('cmp', self.r.choice(('<', '<=', '>', '>=', '==', '!=')), self.lnum(), self.num(1))

    def lnum(self):
        r = self.r
        return item(r.choice(self.loopv)) if self.loopv and r.random() < .7 else item('a')

    def why(self):
        r = self.r
        return r.choice((('str', r.choice(('why', 'because', 'x'))), self.num(), ('arr', [lit(1), ('str', 'k')]),
                         ('obj', [('k', lit(2))])))

    def loop(self, kind, body, d):
        """body(): final expression."""
        r = self.r
        vs = []
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            nm = self.name('i')
            a = lit(r.choice((0, 1, 2))) if r.random() < .25 else None
            e = lit(r.choice((0, 1, 2, 3, 3, 4)))
            vs.append((nm, a, e))
        label = self.name('l') if r.random() < .2 else None
        saved = self.loopv, self.nv, self.bv, self.labels
        self.loopv = self.loopv + [v[0] for v in vs]
        self.labels = [None] + ([label] if label else [])
        b = []
        if r.random() < .25:
            j = ('break' if r.random() < .4 else 'cont', r.choice(self.labels))
            b.append(('if', [(self.bool(), [j])], None))
        if r.random() < .2:
            t = self.name('t')
            b.append(decl(t, self.sn(d + 1)))
            self.nv = self.nv + [t]
        b.append(body())
        self.loopv, self.nv, self.bv, self.labels = saved
        return ('forn', kind, label, vs, b)

    def sb(self, d=0):
        """A boolean that may have a witness."""
        r = self.r
        x = r.random()
        if d > 2:
            return self.bool() if x < .7 or not self.bv else call('clone', item(r.choice(self.bv)))
        if x < .5:
            k = r.choice(('any', 'all', 'any', 'all', '∃', '∀'))
            return self.loop(k, lambda: self.sb(d + 1), d)
        if x < .62:
            return call('explain_why', self.sb(d + 2), self.why())
        if x < .7:
            return ('not', self.sb(d + 1))
        if x < .76:
            return (r.choice(('and', 'or')), self.sb(d + 2), self.sb(d + 2))
        if x < .82:
            return ('cmp', r.choice(('<', '>', '==', '<=')), self.sn(d + 2), self.num(1))
        if x < .87 and self.bv:
            return call('clone', item(r.choice(self.bv)))
        if x < .92 and d:
            return ('if', [(self.bool(), [call('blur', self.sb(d + 2))])], [call('blur', self.sb(d + 2))])
        fs = [f for f in self.fns if f.sec]
        if fs:
            f = r.choice(fs)
            return call(f.name, self.num(), item('d'))
        return self.bool()

    def sn(self, d=0):
        r = self.r
        x = r.random()
        if d > 2:
            return self.num() if x < .7 or not self.nv else call('clone', item(r.choice(self.nv)))
        if x < .5:
            return self.loop(r.choice(('min', 'max')), lambda: self.sn(d + 1), d)
        if x < .62:
            return call('explain_where', self.sn(d + 2), self.why())
        if x < .74:
            return ('bin', r.choice('+-*'), self.sn(d + 2), self.num(1)) if r.random() < .5 else \
                ('bin', r.choice('+-*'), self.num(1), self.sn(d + 2))
        if x < .78:
            return ('neg', self.sn(d + 1))
        if x < .84 and self.nv:
            return call('clone', item(r.choice(self.nv)))
        if x < .9 and d:
            return ('if', [(self.bool(), [call('blur', self.sn(d + 2))])], [call('blur', self.sn(d + 2))])
        fs = [f for f in self.fns if not f.sec]
        if fs:
            f = r.choice(fs)
            return call(f.name, self.num(), item('d'))
        return self.num()

    def body(self, n):
        r = self.r
        out = []
        for _ in range(n):
            b = r.random() < .5
            t = self.name('b' if b else 'n')
            out += [decl(t + 'e', self.sb() if b else self.sn()), decl(t, call('blur', item(t + 'e')))]
            out.append(emit(item(t)))
            (self.bv if b else self.nv).append(t)
            x = r.random()
            if x < .6:
                q = self.name('q')
                v = item(r.choice(self.bv if b else self.nv))
                if b and r.random() < .3:
                    v = ('not', v)
                out.append(decl(q, ('try', call('why' if b else 'where', v))))
                out.append(emit(call('unwrap_or', item(q), ('str', 'none'))))
                out.append(emit(call('is_ok', item(q))))
            elif x < .75:
                q = self.name('c')
                v = item(r.choice(self.bv if b else self.nv))
                out.append(decl(q, r.choice((('arr', [call('clone', v), lit(1)]), ('obj', [('k', call('clone', v))])))))
                out.append(emit(item(q)))
            elif x < .85 and not b:
                v = r.choice(self.nv)
                out.append(('set', r.choice(('+=', '-=', '*=')), item(v), self.sn(2)))
                out.append(emit(item(v)))
            elif x < .93:
                v = r.choice(self.bv if b else self.nv)
                out.append(('set', '=', item(v), self.sb(2) if b else self.sn(2)))
                out.append(emit(item(v)))
        return out

    def program(self):
        r = self.r
        for _ in range(r.randint(0, 3)):
            b = r.random() < .5
            self.nv, self.bv, self.loopv = [], [], []
            body = self.body(r.randint(0, 1))
            e = self.sb(1) if b else self.sn(1)
            t = self.name('r')
            body += [decl(t, e), ('ret', call('clone', item(t)))]
            self.fns.append(Fn(self.name('h'), [Param('a', 'f64'), Param('d', '[f64]')], body, True, 'any'))
            self.fns[-1].sec = b
        self.nv, self.bv, self.loopv = [], [], []
        body = self.body(r.randint(2, 5)) + [('ret', lit(0))]
        self.fns.append(Fn('main', [Param('a', 'f64'), Param('d', '[f64]')], body, True, 'any'))
        return self.fns


def case(ctx, rng, i):
    fns = G6(rng).program()
    calls = []
    for _ in range(4):
        d = [num(rng.choice((0, 1, 2, 3, -1, 5, .5, float('nan')) if rng.random() < .3 else (0, 1, 2, 3))) for _ in range(4)]
        calls.append(('main', [num(rng.choice((0, 1, 2, 3, -1, .5))), ('a', tuple(d))]))
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C06')
    for o in exp:
        for e in o.events:
            if e[0] == 'e' and e[1][0] in 'nb' and e[1][2]:
                ctx.cov['witnesses'] += 1
                ctx.kind('witness_length', len(e[1][2]))
