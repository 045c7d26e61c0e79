"""C09: propagation, try, unwrap."""
from gen import *
from model import *
from lang import Fn, Param
from wire import NAN
import places
from wire import enc, num, st, show

PLAN = {'quick': (4800, 625, 300), 'thorough': (120000, 60000, 2400)}
RULE = ('Programs of three to six functions that make, pass on, catch and unwrap errors: the propagation operator on variables, '
        'elements, nested elements, references in collections, calls, options, booleans and numbers with and without a witness, '
        'inside arguments, operators, branches, loops and closures, after `return` was assigned; try around calls that fail at '
        'random points; unwrap of the outcome; host values of every kind as input. One case in five puts a `?` into one of about 120 places of an expression '
        '(lib/places.py) inside blocks and loops and compares what happened before it and how the caller went on. Non-trivial: more than two events.')
TECHNIQUE = 'online trace monitor: results with messages and trace entries (function, file, line) compared with a reference interpreter'
NOTE = ('Trace entries are compared in number, order, function, file and line; messages exactly, or as fragments where the text '
        'contains a report of the library. Samples programs.')


class G9:
    def __init__(self, rng):
        self.r, self.n, self.fns = rng, 0, []

    def name(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def key(self):
        self.n += 1
        return 'L%d' % self.n

    def num(self):
        r = self.r
        return lit(r.choice((0, 1, 2, 3))) if r.random() < .6 else item('a')

    def cond(self):
        r = self.r
        return ('cmp', r.choice(('<', '>', '==', '!=')), item('a'), lit(r.choice((0, 1, 2, 3))))

    def raw(self):
        """A value that `?` may be applied to."""
        r = self.r
        x = r.random()
        if x < .18:
            return call('ok', self.num())
        if x < .36:
            return call('err', r.choice((('str', self.name('m')), lit(r.randint(0, 9)), ('arr', [lit(1), ('str', 'q')]), ('str', ''))))
        if x < .44:
            return call('some', self.num())
        if x < .5:
            return call('none')
        if x < .56:
            return ('try', self.failing())
        if x < .64:
            return ('forn', r.choice(('any', 'all')), None, [('i' + self.name(''), None, lit(r.choice((0, 1, 3))))], [self.cond()])
        if x < .7:
            return ('forn', r.choice(('min', 'max')), None, [('i' + self.name(''), None, lit(r.choice((0, 1, 3))))], [item('a')])
        if x < .76:
            return item('b')
        if x < .8:
            return r.choice((self.num(), ('bool', True), ('str', 's'), ('arr', [])))
        if self.fns:
            return self.callx()
        return call('ok', call('ok', self.num()))

    def failing(self):
        r = self.r
        x = r.random()
        if x < .3:
            return call('fail_ret', ('str', self.name('f')))
        if x < .45:
            return ('bin', '+', call('blur', self.num()), call('blur', ('str', 'x')))
        if x < .6:
            return item('c', ('[', lit(r.choice((0, 1, 5))), None))
        if x < .7:
            return call('unwrap', item('b'))
        if self.fns:
            return self.callx()
        return self.num()

    def callx(self):
        r = self.r
        f = r.choice(self.fns)
        return call(f.name, self.num(), item('b') if r.random() < .5 else call('blur', self.raw_simple()), ('mut', item('c')))

    def raw_simple(self):
        r = self.r
        if self.fns and r.random() < .25:
            # May have passed through functions already.
            return self.callx()
        return r.choice((call('ok', self.num()), call('err', ('str', self.name('m'))), call('some', self.num()), call('none'),
                         ('bool', True), self.num()))

    def val(self):
        """A number-like expression with `?` inside."""
        r = self.r
        v = r.choice(self.vars) if self.vars else 'b'
        x = r.random()
        if x < .5:
            return item(v, t=self.key())
        if x < .65 and self.fns:
            return ('?', self.callx(), self.key())
        if x < .8 and self.colls:
            nm, k = r.choice(self.colls)
            if k == 'a':
                return item(nm, ('[', lit(r.choice((0, 0, 1))), self.key()))
            if k == 'o':
                return item(nm, ('.', r.choice('kl'), self.key()))
            if k == 'ao':
                return item(nm, ('[', lit(r.choice((0, 1))), None), ('.', 'k', self.key()))
            if k == 'aa':
                return r.choice((item(nm, ('.', 'k', None), ('[', lit(0), self.key())), item(nm, ('.', 'k', None), ('[', lit(1), None), ('[', lit(0), self.key()))))
            if k == 'oa':
                return item(nm, ('.', 'k', self.key()), ('[', lit(r.choice((0, 1))), r.choice((None, self.key()))))
            return item(nm, ('[', lit(0), self.key()), ('.', 'k', self.key() if r.random() < .5 else None), t=self.key())
        return item(v, t=self.key())

    def stmt(self, d=0):
        r = self.r
        x = r.random()
        if x < .22:
            t = self.name()
            e = self.raw()
            out = [decl(t + 'r', e), decl(t, call('blur', item(t + 'r')))] if e[0] == 'forn' else [decl(t, call('blur', e))]
            self.vars = self.vars + [t]
            return out
        if x < .32:
            t = self.name('c')
            k = r.choice(('a', 'o', 'oa', 'n', 'ao', 'aa'))
            v = [item(r.choice(self.vars)) if self.vars and r.random() < .5 else self.raw_simple() for _ in range(2)]
            if k == 'a':
                e = ('arr', v)
            elif k == 'o':
                e = ('obj', [('k', v[0]), ('l', v[1])])
            elif k == 'ao':
                e = ('arr', [('obj', [('k', v[0])]), ('obj', [('k', v[1])])])
            elif k == 'aa':
                e = ('obj', [('k', ('arr', [v[0], ('arr', [v[1]])]))])
            elif k == 'oa':
                e = ('obj', [('k', call(r.choice(('ok', 'some')), ('arr', [call('ok', self.num()), call('clone', v[1])])))])
            else:
                e = call(r.choice(('ok', 'some')), ('arr', [call('ok', ('obj', [('k', call('clone', v[0]))]))]))
            self.colls = self.colls + [(t, k)]
            return [decl(t, e)]
        if x < .62:
            t = self.name()
            out = [decl(t, call('blur', self.val())), call('emit_id', lit(self.n), item(t))]
            if r.random() < .3:
                self.vars = self.vars + [t]
            return out
        if x < .68:
            t = self.name()
            return [decl(t, call('blur', ('bin', '+', call('blur', self.val()), call('blur', self.val())))), emit(item(t))]
        if x < .74:
            t = self.name('t')
            e = self.failing() if r.random() < .6 else call('blur', self.val())
            self.vars = self.vars + [t]
            return [decl(t, ('try', e)), emit(item(t)), emit(item('c'))]
        if x < .8 and d < 2:
            sv, sc = self.vars, self.colls
            b = self.stmts(r.randint(1, 2), d + 1)
            self.vars, self.colls = sv, sc
            if r.random() < .5:
                return [('if', [(self.cond(), b)], None)]
            return [('forn', 'for', None, [(self.name('i'), None, lit(r.choice((1, 2))))], b)]
        if x < .86:
            t, y = self.name('f'), self.name()
            k = self.key()
            body = ('block', [decl('t', item('x', t=k)), call('emit_id', lit(7), item('t')), call('clone', item('t'))])
            return [decl(t, ('clo', [('x', None)], [], body)),
                    decl(y, call('blur', ('cloc', item(t), [item(r.choice(self.vars or ['b']))]))), emit(item(y))]
        if x < .9 and self.ret:
            return [('set', '=', item('return'), call('clone', self.num()))]
        if x < .95:
            return [('set', '=', item('c', ('[', lit(r.randrange(2)), None)), call('clone', self.num())), emit(item('c'))]
        return [('if', [(self.cond(), [('ret', call('blur', self.raw_simple()))])], None)] if self.ret else [emit(item('a'))]

    def stmts(self, n, d=0):
        return [s for _ in range(n) for s in self.stmt(d)]

    def function(self, name, n):
        r = self.r
        self.vars, self.colls, self.ret = [], [], True
        body = [emit(item('a'))] + self.stmts(n)
        x = r.random()
        if x < .4:
            body.append(('ret', call('blur', self.raw_simple())))
        elif x < .8:
            body.append(('ret', call('blur', self.val())))
        else:
            body.append(('ret', call('blur', item(r.choice(self.vars or ['b'])))))
        f = Fn(name, [Param('a', 'f64'), Param('b', 'any'), Param('c', '[f64]', mut=True)], body, True, 'any')
        self.fns.append(f)
        return f

    def program(self):
        r = self.r
        for k in range(r.randint(1, 4)):
            self.function('h%d' % k, r.randint(1, 4))
        self.vars, self.colls, self.ret = [], [], True
        body = [decl('c', ('arr', [lit(1), lit(2)]))] + self.stmts(r.randint(2, 4))
        t = self.name('z')
        body += [decl(t, call('blur', self.callx())), emit(item(t)), emit(item('c'))]
        if r.random() < .6:
            u = self.name()
            body += [decl(u, call('unwrap', item(t))), emit(item(u))]
        body.append(('ret', call('blur', item(t))))
        self.fns.append(Fn('main', [Param('a', 'f64'), Param('b', 'any')], body, True, 'any'))
        return self.fns


HOST = (('ok', num(3)), ('err', st('host'), ()), ('?', None), ('?', num(2)), num(1), num(2, (num(1),)), boolean(True),
        boolean(True, (num(0), st('w'))), boolean(False), st('text'), num(NAN), ('ok', ('ok', num(1))), ('err', num(4), ()),
        num(NAN, (num(1),)), boolean(False, (num(2),)))


def place(ctx, rng, k):
    """`?` in one of the places of an expression: a failure leaves the function there and then, and nowhere else."""
    hole = rng.choice(('look(b)?', 'look(b)?', 'look(b)?', 'f1(look(b)?)', 'unwrap(ok(look(b)?))'))
    text, before, line = places.program(rng, k, hole, 't(b)')
    bs = ok_, bad = rng.choice((('ok', num(1)), ('?', num(1)))), rng.choice((('err', st('m'), ()), ('?', None), ('err', num(3), ())))
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')] + [('callret', 'r', 'm', 'main', enc(v)) for v in (ok_, bad, ok_)]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.violation('C09-place-load', 'a program with `?` in an expression was rejected: %s\n%s' % (ld and ld[0][2][1], text), ops)
        return
    ctx.seen(text)
    ctx.kind('place', places.PLACES[k % len(places.PLACES)])
    runs, cur = [], []
    for e in rep.events:
        if e[0] == 'e':
            cur.append(e[1])
        elif e[0] in ('end', 'panic'):
            runs.append((cur, e))
            cur = []
    exp = [num(x) for x in before] + [num(50)]

    def is_err(v):
        return v[0] == 'err' and (bad[0] != 'err' or v[1] == bad[1]) and len(v[2]) == 1 and \
            v[2][0].startswith('In function `t` (a.dyon)') and '\n%d,' % line in v[2][0]
    d = None
    if len(runs) != 3:
        d = 'the calls did not end'
    for n, (ev, end) in enumerate(runs):
        if end[0] == 'panic' or end[1][1] != 'ok':
            d = 'call %d ended with %s' % (n, show(end[2], 600))
            break
        m = len(exp)
        if [v[:2] for v in ev[:m]] != [v[:2] for v in exp]:
            d = 'call %d: before the `?` expected the events %s, observed %s' % (n, [v[1] for v in exp], [show(v) for v in ev])
            break
        if n == 1:
            rest = ev[m:]
            if len(rest) != 3 + m + 1 or rest[0] != num(11) or rest[1] != ('a', (num(12), num(13))) or rest[-1] != num(13) or \
                    [v[:2] for v in rest[3:-1]] != [v[:2] for v in exp]:
                d = 'after a failing `?` the caller went on with %s' % [show(v) for v in rest]
            elif not is_err(rest[2]) or not is_err(end[2]):
                d = 'the function with the failing `?` on line %d gave %s' % (line, show(rest[2], 600))
            if d:
                break
        elif ev[-1] != num(13) or num(11) not in ev:
            d = 'call %d: after `?` succeeded observed %s' % (n, [show(v) for v in ev])
            break
    if d:
        ctx.violation('C09-place', '%s\n\n%s' % (d, text), ops)


def case(ctx, rng, i):
    if i % 5 == 4:
        return place(ctx, rng, i // 5)
    g = G9(rng)
    fns = g.program()
    calls = [('main', [num(rng.choice((0, 1, 2, 3))), rng.choice(HOST)]) for _ in range(5)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C09')
    for o in exp:
        for e in o.events:
            if e[0] == 'e' and e[1][0] == 'err':
                ctx.cov['errors_seen'] += 1
                ctx.cov['trace_entries'] += len(e[1][2])
                ctx.kind('trace_length', len(e[1][2]))
        if o.trace:
            ctx.cov['unwrapped_with_trace'] += 1
