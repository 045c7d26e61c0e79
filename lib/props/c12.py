"""C12: closures and grabs."""
import re
from gen import *
from model import *
from lang import Fn, Param, Printer, print_program
from wire import enc

PLAN = {'quick': (1500, 300, 300), 'thorough': (60000, 60000, 2400)}
RULE = ('Programs that make closures whose bodies use every expression form of the language with grabs (levels 1 and 2, of variables, '
        'elements and computed values) at random places, change the captured variables afterwards and call the closures, directly, '
        'through arguments, arrays, objects and makers, several times. Each closure is also printed, and the printed text is loaded '
        'as a second program that makes the same calls. Non-trivial: more than two events.')
TECHNIQUE = ('online trace monitor against a reference interpreter, and a differential monitor between a closure and the closure '
             'its printed text denotes')
NOTE = 'Captured values are those a program text can denote (no secrets, NaN or infinities). Samples programs.'

FN1 = ('c', (N,), N)


class G12(Gen):
    def __init__(self, rng, **k):
        super().__init__(rng, **k)
        self.cap = []
        self.grabbing = 0
        self.pg = rng.choice((.15, .3, .5))

    def grabx(self, ty, d):
        """A grab of something in the scope around the closure."""
        r = self.r
        lvl = 1 if len(self.cap) < 2 or r.random() < .5 else 2
        sv, sc, sl, sr = self.vars, self.cap, self.loops, self.returns
        ew = dict(self.ew)
        self.vars, self.cap, self.loops, self.returns = list(self.cap[-lvl]), [], [], None
        self.ew.update(trace=0, loopx=.3, ifx=.3, callx=.3)
        self.grabbing += 1
        try:
            if ty in (N, B, S) and r.random() < .4:
                e = Gen.expr(self, ty, max(d, 2))
            else:
                p = self.place(ty)
                e = p[1] if p else None
        finally:
            self.grabbing -= 1
            self.vars, self.cap, self.loops, self.returns = sv, sc, sl, sr
            self.ew = ew
        if e is None or e[0] in ('num', 'bool', 'str', 'not', 'forn', 'if', 'cmp', 'and', 'or'):
            return None
        return ('grab', lvl, e)

    def expr(self, ty, d=0, fresh=False):
        if self.cap and not self.grabbing and self.r.random() < self.pg and not (isinstance(ty, tuple) and ty[0] == 'c'):
            g = self.grabx(ty, d)
            if g:
                return g
        return super().expr(ty, d, fresh)

    def collapse(self, v, ids):
        v, it = super().collapse(v, ids)
        r = self.r
        if self.cap and not self.grabbing:
            ids = []
            for i in it[2]:
                if i[0] == '[' and i[1][0] == 'num' and r.random() < .5:
                    z = [x for x in self.cap[-1] if x.name.startswith('z')]
                    if z:
                        i = ('[', ('grab', 1, item(r.choice(z).name)), i[2])
                ids.append(i)
            it = item(it[1], *ids)
        return v, it

    def closure(self, ty, lvl=1):
        r = self.r
        saved = (self.vars, self.loops, self.returns, self.cur_decls, self.depth, self.budget, self.w)
        self.cap.append(list(self.visible()))
        self.vars, self.loops, self.returns, self.depth = [], [], None, 1
        self.w = dict(self.w, ret=0, cur=0, clo=0 if len(self.cap) > 1 else self.w['clo'])
        self.budget = r.choice((3, 6, 9))
        ps = []
        for t in ty[1]:
            self.n += 1
            ps.append(('p%d' % self.n, tytext(t)))
            self.add(ps[-1][0], t, mut=False)
        if isinstance(ty[2], tuple) and ty[2][0] == 'c':
            body = self.closure(ty[2])
            if r.random() < .3:
                body = ('block', self.stmts(1) + [body])
        elif r.random() < .35:
            body = self.body_value(ty[2], 0)[0]
            if body[0] in ('item', 'num', 'forn', 'if', 'bool'):
                body = ('block', [('bin', '+', call('clone', body), lit(0)) if ty[2] == N else call('clone', body)])
        else:
            b = self.stmts(r.randint(1, 3))
            b = [s for s in b if s[0] not in ('retv', 'ret')]
            b += self.body_value(ty[2], 0)
            body = ('block', b)
        self.cap.pop()
        self.vars, self.loops, self.returns, self.cur_decls, self.depth, self.budget, self.w = saved
        return ('clo', ps, [], body)

    TY = (FN1, FN1, ('c', (), N), ('c', (N, N), N), ('c', (N,), B), ('c', (N,), S), ('c', (N,), ('c', (N,), N)), ('c', (AN,), N))

    def s_clo(self):
        t = self.r.choice(self.TY[:6] if self.cap else self.TY)
        if len(self.cap) > 1:
            return None
        e = self.closure(t)
        self.n += 1
        nm = 'c%d' % self.n
        self.add(nm, t, mut=False)
        return decl(nm, e)

    def clos(self):
        return [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'c']

    def s_clocall(self):
        c = self.clos()
        if not c:
            return None
        r = self.r
        v = r.choice(c)
        args = [self.expr(t, 2) for t in v.ty[1]]
        if isinstance(v.ty[2], tuple) and v.ty[2][0] == 'c':
            self.n += 1
            nm = 'c%d' % self.n
            self.add(nm, v.ty[2], mut=False)
            return decl(nm, ('cloc', item(v.name), args))
        x = r.random()
        if v.ty == FN1 and x < .2 and not self.cap:
            return emit(call('ap', item(v.name), args[0]))
        if x < .35 and not self.cap:
            self.n += 1
            nm = 'o%d' % self.n
            it = item(nm, ('[', lit(0), None)) if x < .28 else item(nm, ('.', 'f', None))
            e = ('arr', [item(v.name)]) if x < .28 else ('obj', [('f', item(v.name))])
            return ('if', [(('bool', True), [decl(nm, e), emit(('cloc', it, args))])], None)
        return emit(('cloc', item(v.name), args))


W = dict(decl=3, set=5, emit=1, if_=1, forn=1, for_=.5, loop=.4, block=.4, jump=1, ret=0, path=3, coll=2, mutcall=1, clo=3, clocall=5)
ARGS = {N: lambda r: lit(r.choice((0, 1, 2, 3, -1, .5))), B: lambda r: ('bool', r.random() < .5),
        AN: lambda r: ('arr', [lit(r.randint(0, 5)) for _ in range(r.randint(0, 3))])}
BAD = re.compile(r'\b(NaN|inf)\b')


def case(ctx, rng, i):
    if i % 3 == 2:
        return textual(ctx, rng)
    g = G12(rng, weights=W, budget=22, ew=dict(clox=2, trace=1.2, retx=0, opt=.6))
    g.TYPES = (N, N, N, B, S, V, L, AN, AN, AAN, OB)
    g.fns.append(Fn('ap', [Param('f', '\\(f64) -> f64'), Param('x', 'f64')], [('ret', ('cloc', item('f'), [item('x')]))], True, 'f64'))
    for _ in range(rng.randint(0, 2)):
        g.helper()
    if rng.random() < .5:
        # A function that makes closures.
        g.vars, g.returns = [], None
        g.add('a0', N, mut=False, param=True)
        body = g.stmts(rng.randint(0, 2)) if rng.random() < .5 else []
        body = [s for s in body if s[0] not in ('retv',)]
        clo = g.closure(FN1)
        g.fns.append(Fn('mk', [Param('a0', 'f64')], body + [('ret', clo)], True, '\\(f64) -> f64'))
    # The main program.
    g.vars, g.loops, g.returns, g.depth, g.budget = [], [], None, 0, 26
    ps = []
    for k in range(2):
        ps.append(Param('a%d' % k, 'f64'))
        g.add('a%d' % k, N, mut=False, param=True)
    body = []
    for nm, t, e in (('z1', N, lit(0)), ('z2', N, lit(1)), ('s1', S, ('str', 'q"\n')), ('b1', B, ('bool', True)),
                     ('n1', N, ('bin', '+', item('a0'), lit(1))), ('v1', AN, ('arr', [lit(3), item('a1'), lit(5)])),
                     ('w1', OB, None), ('y1', V, ('vec', [lit(1), lit(-2), lit(3)])),
                     ('k1', L, ('link', [lit(1), ('str', 'u'), ('bool', True)])), ('m1', AAN, ('arr', [('arr', [lit(1), lit(2)]), ('arr', [lit(3)])]))):
        if rng.random() < .8:
            body.append(decl(nm, e or g.expr(t, 2, fresh=True)))
            g.add(nm, t)
    if g.fns[-1].name == 'mk':
        body.append(decl('c0', call('mk', item('a0'))))
        g.add('c0', FN1, mut=False)
    body.append(g.s_clo())
    body += [g.stmt() for _ in range(rng.randint(5, 9))]
    cs = g.clos()
    calls_of = {}
    for v in cs:
        if isinstance(v.ty[2], tuple) and v.ty[2][0] == 'c':
            continue
        body += [call('emit_id', lit(900), call('str', item(v.name)))]
        k = []
        for _ in range(2):
            g.n += 1
            nm = 'x%d' % g.n
            a = [ARGS[t](rng) for t in v.ty[1]]
            k += [decl(nm, ('try', ('cloc', item(v.name), a))), emit(item(nm))]
        calls_of[v.name] = k
        body += [call('emit_id', lit(901), ('str', v.name))] + k + [call('emit_id', lit(902), lit(0))]
    g.fns.append(Fn('f0', ps, body))
    fns = g.fns
    calls = [('f0', [num(rng.choice((0, 1, 2))), num(rng.choice((0, 1, 3, -1, .5)))]) for _ in range(2)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    rep = run_program(ctx, fns, calls, exp, 'C12')
    if rep is None or rep.over:
        return
    roundtrip(ctx, rng, fns, calls_of, rep)


def par(e):
    """Parentheses where they are needed: the parser takes time exponential in their nesting."""
    if re.fullmatch(r'[a-z_]\w*|[\d.]+|"\w*"', e):
        return e
    m = re.match(r'\w*\(', e)
    if m:
        d = 0
        for k, c in enumerate(e):
            d += c in '([{'
            d -= c in ')]}'
            if d == 0 and k >= m.end() - 1:
                break
        if k == len(e) - 1:
            return e
    return '(%s)' % e


class T:
    """Texts of closure bodies of every form, for the monitor that compares a closure with its text."""

    def __init__(self, r):
        self.r, self.k = r, 0
        self.idx = ['x']
        self.label = []
        self.lets = []

    def nm(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def lit(self):
        return self.r.choice(('0', '1', '2', '3', '0.5', '10', '-1', '-2', '-0.5', '100'))

    def num(self, d):
        r = self.r
        if d <= 0:
            return r.choice((r.choice(self.idx), self.lit(), '(grab n)', '(grab m)', r.choice(self.idx)))
        n = lambda: self.num(d - 1)
        x = r.randrange(30)
        if x < 4:
            return '(%s %s %s)' % (par(n()), r.choice(('+', '-', '*', '/', '%', '^')), par(n()))
        if x < 6:
            return '%s %s %s %s %s' % (self.num(0), r.choice('+-*/'), self.num(0), r.choice('+-*/'), par(n()))
        if x == 6:
            return '-%s' % par(n())
        if x == 7:
            return 'if %s { %s } else if %s { %s } else { %s }' % (par(self.cond(d - 1)), n(), par(self.cond(d - 1)), n(), n())
        if x in (8, 9, 10):
            i = self.nm('i')
            self.idx.append(i)
            b = self.block(d - 1)
            self.idx.remove(i)
            rng = r.choice(('3', '[1, 4)', '(grab n)', '[(grab m), 3)', par(self.num(0))))
            return '%s%s %s %s %s' % ('', r.choice(('sum', 'prod', 'min', 'max')), i, rng, b)
        if x == 11:
            i, l = self.nm('i'), self.nm('l')
            self.idx.append(i)
            self.label.append(l)
            b = self.block(d - 1)
            self.label.pop()
            self.idx.remove(i)
            if r.random() < .6:
                b = "{ if %s > 1 { %s '%s }\n%s\n}" % (i, r.choice(('break', 'continue')), l, b)
            if r.random() < .25:
                return "len('%s: sift %s 4 %s)" % (l, i, b)
            return "'%s: %s %s 4 %s" % (l, r.choice(('sum', 'max', 'min', 'prod')), i, b)
        if x == 12:
            return '(grab v)[%s]' % r.choice(('0', '1')) if 0 else 'len(%s)' % self.arr(d - 1)
        if x == 13:
            return 'len(chars(%s))' % self.text(d - 1)
        if x == 14:
            return '%s(%s)' % (r.choice(('x', 'y', 'z', 'w')), self.vec(d - 1))
        if x == 15:
            return '|%s|' % par(self.vec(d - 1))
        if x == 16:
            return '(%s %s %s)' % (par(self.vec(d - 1)), '*.', par(self.vec(d - 1)))
        if x == 17:
            return '{ ' + '\n'.join(self.stmts(d - 1)) + '\n' + n() + '\n}'
        if x == 18:
            return 'unwrap(%s)' % r.choice(('some(%s)', 'ok(%s)')) % n()
        if x == 19:
            return 'unwrap_or(%s, %s)' % (r.choice(('none()', 'err("e")', 'some(%s)' % n())), n())
        if x == 20:
            return 'unwrap(try %s)' % self.atom(d - 1)
        if x == 21:
            p = self.nm('p')
            ps = [p] + [self.nm('p') for _ in range(r.choice((0, 1, 1, 2)))]
            idx, self.idx, lab, self.label = self.idx, list(ps), self.label, []
            e = self.num(d - 2)
            self.idx, self.label = idx, lab
            e = '0 + (%s)' % e.replace('grab ', "grab '2 ")
            c = self.nm('c')
            return '{ %s := \\(%s) = %s\n\\%s(%s)\n}' % (c, ', '.join('%s: f64' % q for q in ps), e, c, ', '.join(self.num(d - 1 if q == p else 0) for q in ps))
        if x == 22:
            return 'hadd(%s, %s)' % (n(), n())
        if x == 23:
            return 'named(a: %s, b: %s)' % (n(), n())
        if x == 24:
            v = self.nm('q')
            return '{ %s := %s\nhmut(mut %s, %s)\n%s\n}' % (v, n(), v, n(), 'clone(%s)' % v)
        if x == 25:
            v = self.nm('q')
            return '{ %s := %s\n%s\n}' % (v, self.arr(d - 1), 'clone(%s[%s])' % (v, r.choice(('0', '1', '(grab z)', self.num(0)))))
        if x == 26:
            v = self.nm('q')
            return '{ %s := {a: %s, "b c": %s, d_1: [%s], "": %s}\nclone(%s%s)\n}' % (
                v, n(), n(), n(), n(), v, r.choice(('.a', '["b c"]', '.d_1[0]', '[""]', '.d_1[grab z]', '[grab s]')))
        if x == 27:
            return '%s(%s)' % (r.choice(('sin', 'abs', 'floor', 'round')), n())
        if x == 28:
            return 'len(chars(link_str(%s)))' % self.link(d - 1)
        return 'unwrap(prop(%s))' % n()

    def atom(self, d):
        return par(self.num(d))

    def cond(self, d):
        r = self.r
        if d <= 0:
            return r.choice(('(grab b)', 'true', 'x > 1', 'false', '(x < 2)', '!(grab b)'))
        c = lambda: self.cond(d - 1)
        x = r.randrange(9)
        if x < 2:
            return '(%s %s %s)' % (par(self.num(d - 1)), r.choice(('<', '>', '<=', '>=', '==', '!=')), par(self.num(d - 1)))
        if x == 2:
            return '(%s %s %s)' % (par(c()), r.choice(('&&', '||')), par(c()))
        if x == 3:
            return '!%s' % par(c())
        if x == 4:
            i = self.nm('i')
            self.idx.append(i)
            b = self.cond(d - 1)
            self.idx.remove(i)
            if r.random() < .3:
                l = self.nm('l')
                return "'%s: %s %s 3 { if %s { break '%s }\n%s\n}" % (l, r.choice(('any', 'all')), i, par('%s > 1' % i), l, b)
            return '%s %s 3 { %s }' % (r.choice(('any', 'all')), i, b)
        if x == 5:
            return '(%s == %s)' % (par(c()), par(c()))
        if x == 6:
            return '(%s == %s)' % (par(self.arr(d - 1)), par(self.arr(d - 1)))
        if x == 7:
            return '(%s == %s)' % (par(self.text(d - 1)), self.text(d - 1))
        return 'has({a: %s}, %s)' % (self.num(d - 1), r.choice(('"a"', '"b"')))

    def vec(self, d):
        r = self.r
        n = lambda: self.num(d - 1)
        x = r.randrange(10)
        if d <= 0 or x < 2:
            return r.choice(('(grab y)', '(1, 2)', '(0, 0)', '(0,)', '(1, -2, 3)', '(x, 0, 1)', '(0, 0, 0, x)', '#ff8000'))
        if x < 5:
            k = r.choice((1, 2, 3, 4))
            return '(%s)' % (', '.join(n() for _ in range(k)) + (',' if k == 1 else ''))
        if x == 5:
            return '(%s %s %s)' % (par(self.vec(d - 1)), r.choice('+-'), par(self.vec(d - 1)))
        if x == 6:
            return '(xy %s, %s)' % (par(self.vec(d - 1)), n())
        if x == 7:
            i = self.nm('i')
            self.idx.append(i)
            e = self.num(d - 1)
            self.idx.remove(i)
            return '(vec%d %s %s)' % (r.choice((2, 3, 4)), i, par(e))
        if x == 8:
            i = self.nm('i')
            self.idx.append(i)
            e = self.vec(d - 1)
            self.idx.remove(i)
            return '%s %s 3 { %s }' % (r.choice(('sum_vec4', 'prod_vec4')), i, e)
        return 'row(%s, %d)' % ('mat4 {%s,%s; %s,1; 0,0,1; 0,0,0,1}' % (n(), n(), n()), r.randint(0, 3))

    def arr(self, d):
        r = self.r
        n = lambda: self.num(d - 1)
        x = r.randrange(8)
        if d <= 0 or x < 2:
            return r.choice(('(grab v)', '[1, 2]', '[]', '[x, 3]', '[5; 3]'))
        if x < 4:
            return '[%s]' % ', '.join(n() for _ in range(r.randint(1, 3)))
        if x == 4:
            return '[%s; %s]' % (n(), r.choice(('2', '(grab z)', '(1 + 1)')))
        if x == 5:
            i = self.nm('i')
            self.idx.append(i)
            l = self.nm('l') if r.random() < .4 else ''
            self.label += [l] if l else []
            b = self.block(d - 1)
            self.label = self.label[:-1] if l else self.label
            self.idx.remove(i)
            if l and r.random() < .7:
                b = "{ if %s > 1 { %s '%s }\n%s\n}" % (i, r.choice(('break', 'continue')), l, b)
            return '%ssift %s 3 %s' % ("'%s: " % l if l else '', i, b)
        if x == 6:
            i, j = self.nm('i'), self.nm('j')
            self.idx += [i, j]
            e = n()
            self.idx.remove(i)
            self.idx.remove(j)
            return 'sift %s 2, %s [1, 3) { %s }' % (i, j, e)
        return '(%s + %s)' % (par(self.arr(d - 1)), par(self.arr(d - 1)))

    def text(self, d):
        r = self.r
        x = r.randrange(5)
        if d <= 0 or x < 2:
            return r.choice(('(grab s)', '"a\\n\\"b\\\\"', '""', '"(x"', '"é\\t/* */"'))
        if x == 2:
            return 'str(%s)' % r.choice((self.num, self.cond, self.vec, self.arr, self.link))(d - 1)
        if x == 3:
            return '(%s + %s)' % (self.text(d - 1), self.text(d - 1))
        return 'link_str(%s)' % self.link(d - 1)

    def link(self, d):
        r = self.r
        x = r.randrange(6)
        if d <= 0 or x < 2:
            return r.choice(('(grab l)', 'link {}', 'link { 1 2 }', 'link { "a" true x }', 'link { 1\n-2\n(x) }', 'link { 1 (-2) }'))
        if x < 4:
            return 'link { %s }' % '\n'.join(r.choice((self.atom, self.text, self.link))(d - 1) for _ in range(r.randint(1, 4)))
        i = self.nm('i')
        self.idx.append(i)
        e = self.atom(d - 1)
        self.idx.remove(i)
        return 'link %s 3 { %s %s }' % (i, e, i)

    def block(self, d):
        if d <= 0 or self.r.random() < .5:
            return '{ %s }' % self.num(d)
        return '{ %s\n%s\n}' % ('\n'.join(self.stmts(d, True)), self.num(d - 1))

    def stmts(self, d, loop=False):
        r = self.r
        out = []
        for _ in range(r.randint(1, 3)):
            x = r.randrange(9)
            if x < 2:
                v = self.nm('q')
                out.append('%s := %s' % (v, self.num(d - 1)))
                out.append('%s %s %s' % (v, r.choice(('=', '+=', '-=', '*=', '/=', '%=', '^=')), self.num(d - 1)))
            elif x == 2 and loop:
                j = r.choice(('break', 'continue') + (("break '%s" % r.choice(self.label), "continue '%s" % r.choice(self.label)) if self.label else ()))
                out.append('if %s { %s }' % (par(self.cond(d - 1)), j))
            elif x == 3:
                i, l = self.nm('i'), self.nm('l')
                self.idx.append(i)
                out.append("'%s: for %s 3 { if %s { break '%s }\nemit(%s)\n}" % (l, i, par(self.cond(d - 1)), l, self.num(d - 1)))
                self.idx.remove(i)
            elif x == 4:
                k = self.nm('k')
                out.append('for %s := 0; %s < 3; %s += 1 { emit(%s) }' % (k, k, k, self.num(d - 1)))
            elif x == 5:
                k, l = self.nm('k'), self.nm('l')
                out.append("%s := 0\n'%s: loop { %s += 1\nif %s > 3 { break '%s }\nif %s { continue '%s }\nemit(%s)\n}" % (
                    k, l, k, k, l, par(self.cond(d - 1)), l, k))
            elif x == 6:
                out.append('emit(%s)' % r.choice((self.num, self.cond, self.vec, self.arr, self.text, self.link))(d))
            elif x == 7:
                out.append('if %s { emit(%s) } else { emit(%s) }' % (par(self.cond(d - 1)), self.num(d - 1), self.num(d - 1)))
            else:
                v = self.nm('q')
                out.append('%s := {a: [%s, 1], b: {c: 2}}\n%s.a[%s] = %s\n%s.b.c += %s\n%s["n w"] := 4\nemit(%s)' % (
                    v, self.num(d - 1), v, r.choice(('0', '(grab z)')), self.num(d - 1), v, self.num(d - 1), v, v))
        return out


TEXTS = """fn hadd(a: f64, b: f64) -> f64 { return a + b * 2 }
fn named__a_b(a: f64, b: f64) -> f64 { return a - b }
fn hmut(mut a: f64, b: f64) { a += b }
fn prop(a: f64) -> opt[f64] { if a > 2 { return none() }
return some(a)
}
fn link_str(l: link) -> str { return str(l) }
"""
HEAD = """    n := 2
    m := -1
    z := 1
    b := true
    v := [3, -4, 5]
    o := {a: 1}
    s := "b c"
    y := (1, -2, 0, 4)
    l := link { 1 "u"
-2 true }
"""
XS = (0, 1, 2, -1.5)


def nesting(t):
    d = m = 0
    for c in t:
        d += c in '([{'
        d -= c in ')]}'
        m = max(m, d)
    return m


def textual(ctx, rng):
    t = T(rng)
    body = t.num(rng.choice((1, 2, 2)))
    if rng.random() < .3:
        body = '{ %s\n%s\n}' % ('\n'.join(t.stmts(2)), t.num(1))
    if nesting(body) > 6:
        # The parser takes time exponential in the nesting.
        ctx.cov['texts_too_deep'] += 1
        return
    cur = rng.random() < .1
    clo = '\\(x: f64) %s= %s' % ('~ mut cu: f64 ' if cur else '', body if not cur else '{ cu += 1\nx + cu + (%s)\n}' % body)
    calls = ''.join('    r%d := try \\c(%s)\n    emit(r%d)\n' % (k, x, k) for k, x in enumerate(XS))
    pre = '    ~ cu := 5\n' if cur else ''
    first = TEXTS + 'fn f0() {\n' + pre + HEAD + '    c := ' + clo + '\n    n = 7\n    v[0] = 9\n    o.a = 8\n    s = "x"\n    b = false\n' + \
        '    emit_id(900, str(c))\n' + calls + '}\n'

    def run(text):
        ops = [('limit', 3000), ('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r'), ('call', 'r', 'm', 'f0')]
        return ops, ctx.run(ops)
    ops, rep = run(first)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.cov['texts_rejected'] += 1
        return
    texts = [e[2][1] for e in rep.events if e[0] == 'E' and e[1][1] == 900]
    if not texts or rep.over or rep.died:
        ctx.cov['texts_unusable'] += 1
        return
    if BAD.search(texts[0]):
        ctx.cov['not_denotable'] += 1
        return
    want = [e for e in rep.events if e[0] in TAGS and not (e[0] == 'E' and e[1][1] == 900)]
    second = TEXTS + 'fn f0() {\n' + pre + '    c := ' + texts[0] + '\n' + calls + '}\n'
    ops2, r2 = run(second)
    ctx.cov['texts_compared'] += 1
    ld = r2.of('load')
    d = None
    if not ld or ld[0][1][1] != 'ok':
        d = 'the printed closure is not accepted: %s' % (show(ld[0][2], 500) if ld else r2.died)
    else:
        got = [e for e in r2.events if e[0] in TAGS]
        if len(got) != len(want) or not all(loose(p, q) for p, q in zip(want, got)):
            k = next((j for j in range(min(len(got), len(want))) if not loose(want[j], got[j])), min(len(got), len(want)))
            d = 'the printed closure behaves differently at step %d: the closure gave %s, its text %s' % (
                k, sh(want[k]) if k < len(want) else 'nothing', sh(got[k]) if k < len(got) else 'nothing')
    if d:
        ctx.violation('C12 print', d + '\n\ntext: ' + texts[0] + '\n\noriginal:\n' + first, ops2)
        return
    ctx.seen((texts[0], tuple(map(repr, want))), len(want) > 2)
    ctx.cov['text_events'] += len(want)


def roundtrip(ctx, rng, fns, calls_of, rep):
    texts, seg, cur = {}, {}, None
    last = None
    for e in rep.events:
        if e[0] == 'end':
            break
        if e[0] == 'E' and e[1][1] == 900:
            last = e[2][1]
        elif e[0] == 'E' and e[1][1] == 901:
            cur = e[2][1]
            texts[cur], seg[cur] = last, []
        elif e[0] == 'E' and e[1][1] == 902:
            cur = None
        elif cur is not None:
            seg[cur].append(e)
    if cur is not None:
        seg.pop(cur, None)
    base = [f for f in fns if f.name != 'f0']
    for name, want in seg.items():
        t = texts[name]
        if BAD.search(t):
            ctx.cov['not_denotable'] += 1
            continue
        f = Fn('f0', [], [decl(name, ('raw', t))] + calls_of[name])
        text, _ = print_program(base + [f])
        ops = [('limit', len(want) + 50), ('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r'), ('call', 'r', 'm', 'f0')]
        r2 = ctx.run(ops)
        ctx.cov['printed_closures'] += 1
        ld = r2.of('load')
        d = None
        if not ld or ld[0][1][1] != 'ok':
            d = 'the printed closure is not accepted: %s' % (show(ld[0][2], 500) if ld else r2.died)
        else:
            got = [e for e in r2.events if e[0] in TAGS]
            if len(got) != len(want) or not all(loose(x, y) for x, y in zip(want, got)):
                k = next((j for j in range(min(len(got), len(want))) if not loose(want[j], got[j])), min(len(got), len(want)))
                d = 'the printed closure behaves differently at step %d: the closure gave %s, its text %s' % (
                    k, sh(want[k]) if k < len(want) else 'nothing', sh(got[k]) if k < len(got) else 'nothing')
        if d:
            ctx.violation('C12 print', d + '\n\ntext: ' + t + '\n\n' + text + '\noriginal:\n' + print_program(fns)[0], ops)
            return
        ctx.cov['printed_events'] += len(want)


def loose(a, b):
    """Equality except for the texts of error reports."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if a and a[0] == 'err' and b[0] == 'err':
            return True
        if a and a[0] in ('n', 'b') and len(a) == 3:
            # A text cannot denote secrets, and the parser reads digits one by one.
            return a[0] == b[0] and (a[1] == b[1] or a[1] != a[1] and b[1] != b[1] or
                                     isinstance(a[1], float) and abs(a[1] - b[1]) <= 1e-12 * max(abs(a[1]), abs(b[1])))
        return all(loose(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(loose(a[k], b[k]) for k in a)
    return a == b or a != a and b != b
