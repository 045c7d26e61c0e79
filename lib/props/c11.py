"""C11: current objects."""
from gen import *
from model import *

PLAN = {'quick': (5000, 625, 300), 'thorough': (120000, 60000, 2400)}
RULE = ('Random call graphs of functions and closures that declare, read, change and miss current objects of three names '
        '(number, array, object), declared in nested blocks, loops, for headers and branches, shadowed by later declarations and '
        'by plain locals of the same name, read through the host interface, with early returns and failures caught by try; '
        'several host calls on one runtime. Non-trivial: more than two events.')
TECHNIQUE = 'online trace monitor: every read of a current object compared with a reference interpreter with explicit dynamic scopes'
NOTE = 'Samples programs; trusts the reference interpreter. Host reads through current_object are part of the trace.'

NAMES = {'cu0': N, 'cu1': AN, 'cu2': OB}


class G:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.fns = []
        self.ids = 0
        self.loops = 0

    def id(self):
        self.ids += 1
        return lit(self.ids)

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def num(self, sc):
        r = self.r
        x = r.random()
        if x < .4:
            return lit(r.randint(0, 9))
        vs = [n for n, i in sc.items() if i[0] == N]
        if vs:
            v = item(r.choice(vs))
            return ('bin', r.choice('+*'), v, lit(r.randint(1, 3)))
        return lit(r.randint(0, 9))

    def val(self, t, sc):
        if t == N:
            return self.num(sc)
        if t == AN:
            return ('arr', [self.num(sc) for _ in range(self.r.randint(1, 3))])
        return ('obj', [('p', self.num(sc)), ('q', ('arr', [self.num(sc)]))])

    def cond(self, sc):
        return ('cmp', self.r.choice(('<', '>=', '==', '>=')), self.num(sc), lit(self.r.randint(0, 6)))

    def stmts(self, sc, k, depth, fi):
        """sc: name -> (type, mutable)."""
        sc = dict(sc)
        out = []
        for _ in range(k):
            s = self.stmt(sc, depth, fi)
            if s:
                out += s
        return out or [call('emit_id', self.id(), lit(0))]

    def change(self, n, sc):
        r = self.r
        t = sc[n][0]
        if t == N:
            return ('set', r.choice(('=', '+=', '-=', '*=')), item(n), self.num(sc))
        if t == AN:
            x = r.random()
            if x < .4:
                return call('push', ('mut', item(n)), self.num(sc))
            if x < .8:
                return ('set', r.choice(('=', '+=')), item(n, ('[', lit(0), None)), self.num(sc))
            return ('set', '=', item(n), self.val(AN, sc))
        x = r.random()
        if x < .5:
            return ('set', r.choice(('=', '+=')), item(n, ('.', 'p', None)), self.num(sc))
        if x < .7:
            return ('set', '+=', item(n, ('.', 'q', None), ('[', lit(0), None)), self.num(sc))
        return ('set', '=', item(n), self.val(OB, sc))

    def looping(self, sc, depth, fi, k, n):
        r = self.r
        if k < .55:
            i = self.new('i')
            return [('forn', 'for', None, [(i, None, lit(r.randint(1, 2)))], self.stmts({**sc, i: (N, False)}, n, depth + 1, fi))]
        if k < .7:
            # The counter itself is a current object.
            return [('for', None, ('decl', ('curdecl', 'cu0', []), lit(0)), ('cmp', '<', item('cu0'), lit(2)),
                     ('set', '+=', item('cu0'), lit(1)), self.stmts({**{a: b for a, b in sc.items() if a != 'cu0'},
                                                                     'cu0': (N, False)}, n, depth + 1, fi))]
        if k < .85:
            b = self.stmts(sc, n, depth + 1, fi)
            return [('loop', None, b + [('break', None)])]

    def stmt(self, sc, depth, fi):
        r = self.r
        x = r.random()
        if self.loops and r.random() < .1:
            # Leaves a scope with a current object of its own.
            n = r.choice(list(NAMES))
            b = [('decl', ('curdecl', n, []), self.val(NAMES[n], sc))] + self.stmts({**sc, n: (NAMES[n], True)}, 1, 3, fi)
            b.append((r.choice(('break', 'cont')), None))
            return [('if', [(self.cond(sc), b)], None)]
        curs = [n for n in sc if n in NAMES and sc[n][0] == NAMES[n]]
        if x < .17 and curs:
            return [call('emit_id', self.id(), item(r.choice(curs)))]
        if x < .22:
            return [call('emit_id', self.id(), call('cur_num', ('str', 'cu0')))]
        if x < .38:
            m = [n for n in curs if sc[n][1]]
            if not m:
                return None
            return [self.change(r.choice(m), sc)]
        if x < .52:
            n = r.choice(list(NAMES))
            e = self.val(NAMES[n], sc)
            sc[n] = (NAMES[n], True)
            return [('decl', ('curdecl', n, []), e)]
        if x < .55:
            # A plain local of the same name hides the object here only.
            n = r.choice(list(NAMES))
            e = self.val(NAMES[n], sc)
            sc[n] = (NAMES[n], True)
            return [decl(n, e)]
        if x < .75 and fi > 0:
            f = self.fns[r.randrange(fi)]
            c = call(f.name, self.num(sc))
            if r.random() < .25:
                v = self.new('t')
                return [decl(v, ('try', c)), call('emit_id', self.id(), item(v))]
            if r.random() < .1:
                return [call('emit_id', self.id(), call('hcall', ('str', f.name), ('arr', [self.num(sc)])))]
            return [call('emit_id', self.id(), c)]
        if x < .82:
            # A closure that uses a current object.
            n = r.choice(list(NAMES))
            v, p = self.new('f'), self.new('x')
            cur = {'cu0': item('cu0'), 'cu1': item('cu1', ('[', lit(0), None)), 'cu2': item('cu2', ('.', 'p', None))}[n]
            if r.random() < .4:
                body = ('block', [('set', '+=', cur, item(p)), call('emit_id', self.id(), item(n)), ('bin', '+', cur, lit(0))])
                mut = True
            else:
                body, mut = ('bin', '+', item(p), cur), False
            out = [decl(v, ('clo', [(p, 'f64')], [(mut, n)], body))]
            if r.random() < .4:
                out += self.stmts(sc, 1, depth + 1, fi) if r.random() < .5 else []
            e = ('cloc', item(v), [self.num(sc)])
            if r.random() < .3:
                t = self.new('t')
                return out + [decl(t, ('try', e)), call('emit_id', self.id(), item(t))]
            return out + [call('emit_id', self.id(), e)]
        if depth < 3 and x < .95:
            k = r.random()
            n = r.randint(1, 3)
            if k >= .3 and k < .85:
                self.loops += 1
                try:
                    return self.looping(sc, depth, fi, k, n)
                finally:
                    self.loops -= 1
            if k < .3:
                return [('if', [(self.cond(sc), self.stmts(sc, n, depth + 1, fi))],
                         self.stmts(sc, n, depth + 1, fi) if r.random() < .5 else None)]
            # The value of a branch is computed inside the scope.
            t = self.new('t')
            nm = r.choice(list(NAMES))
            b = [('decl', ('curdecl', nm, []), self.val(NAMES[nm], sc))]
            fs = [f for f in self.fns[:fi]]
            tail = call(r.choice(fs).name, self.num(sc)) if fs else lit(1)
            return [decl(t, ('if', [(self.cond(sc), b + [tail])], [('bin', '+', lit(2), lit(3))])), call('emit_id', self.id(), item(t))]
        if x < .98:
            return [('if', [(self.cond(sc), [('ret', self.num(sc))])], None)]
        return [('if', [(self.cond(sc), [call('fail', ('str', 'boom'))])], None)]

    def program(self):
        r = self.r
        k = r.randint(2, 4)
        for j in range(k):
            curs = []
            sc = {'a': (N, False)}
            if j < k - 1 or r.random() < .1:
                for n, t in NAMES.items():
                    if r.random() < .5:
                        m = r.random() < .6
                        curs.append((m, n, {N: 'f64', AN: '[f64]', OB: '{}'}[t] if r.random() < .6 else None))
                        sc[n] = (t, m)
            body = []
            if j == k - 1:
                for n, t in NAMES.items():
                    if r.random() < .93 and n not in sc:
                        body.append(('decl', ('curdecl', n, []), self.val(t, sc)))
                        sc[n] = (t, True)
            body += self.stmts(sc, r.randint(2, 4) + (3 if j == k - 1 else 0), 0, j)
            body.append(('ret', self.num(sc)))
            self.fns.append(Fn('g%d' % j, [Param('a', 'f64')], body, True, 'f64', curs))
        return self.fns


def hcall(it, a):
    name = it.get(a[0])[1]
    args = list(it.get(a[1])[1])
    return it.get(it.invoke(it.byname[name], args))


def case(ctx, rng, i):
    g = G(rng)
    fns = g.program()
    main = fns[-1].name
    calls = []
    for _ in range(3):
        calls.append((main, [num(rng.randint(0, 9))]))
        if rng.random() < .5:
            # Called from the host there is no current object.
            calls.append((rng.choice(fns).name, [num(rng.randint(0, 9))]))
    exp = predict(fns, calls, external={'hcall': hcall})
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C11', check_depth=False)
