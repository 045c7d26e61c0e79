"""C01: links as immutable sequences."""
import math
from wire import enc, num, boolean, st, same, show, NAN

PLAN = {'quick': (3600, 1125, 300), 'thorough': (200000, 200000, 2400)}
RULE = ('Histories of about 60 operations over eight registers of the public link type (push, push of a link, concatenation, '
        'first, last, rest, all-but-last, copies, drops; bulk pushes and doubling reach thousands of items, with lengths around '
        'the storage block size), and scripts doing the same with literals, loops, +=, -=, mutable arguments, collections and '
        'failing pushes. Every live link is read back from both ends after changes. Non-trivial: a read of a non-empty link; '
        'distinct by contents.')
TECHNIQUE = 'every link is read back from both ends during random histories and compared with a plain list model'
NOTE = 'Contents are compared bit by bit. Samples histories.'
WORDS = ('', 'a', 'bc', 'æøå', '漢字', 'line\n', '"q"', 'x' * 40)


def scalar(rng, simple=False):
    x = rng.random()
    if x < .4:
        if simple:
            return num(rng.choice((0, 1, 2, 3.5, 100)))
        return num(rng.choice((0.0, -0.0, 1.0, 2.5, NAN, math.inf, -math.inf, 1e300, 5e-324, float(rng.randint(-99, 99)))))
    if x < .7:
        return st(rng.choice(WORDS[:5] if simple else WORDS))
    return boolean(rng.random() < .5)


def sec(rng, v):
    return v[:2] + ((num(1),),) if v[0] in 'nb' and rng.random() < .05 else v


def bare(v):
    return v[:2] + (None,) if v[0] in 'nb' else v


BAD = (('a', ()), ('o', {}), ('v', (1.0, 2.0, 3.0, 4.0)), ('?', None), ('ok', num(1)), ('?', num(1)), ('m', (0.0,) * 16))


def direct(ctx, rng):
    R = 8
    regs = [None] * R
    cmds, exp = [], []
    heavy = rng.random() < .35

    def put(*c):
        cmds.append(('a', tuple(st(c[0]) if k == 0 else num(x) if isinstance(x, int) else x for k, x in enumerate(c))))

    def read(r):
        if rng.random() < .5:
            put('read', r)
            exp.append(('read', ('l', tuple(regs[r]))))
        elif len(regs[r]) < 1500 or rng.random() < .3:
            put('back', r)
            exp.append(('read', ('a', tuple(regs[r]))))
        put('ends', r)
        l = regs[r]
        exp.append(('ends', ('?', l[0] if l else None), ('?', l[-1] if l else None), st('' if l else 'empty')))

    def readall():
        for r in range(R):
            if regs[r] is not None:
                read(r)
    put('new', 0)
    regs[0] = []
    nsl = 0
    for _ in range(rng.randint(20, 60)):
        live = [r for r in range(R) if regs[r] is not None]
        r = rng.choice(live) if live else None
        x = rng.random()
        if r is None or x < .06:
            q = rng.randrange(R)
            put('new', q)
            regs[q] = []
        elif x < .3:
            k = rng.choice((1, 1, 2, 3)) if not heavy or rng.random() < .6 else rng.choice((60, 121, 122, 123, 124, 125, 126, 248, 250))
            for _ in range(k):
                v = sec(rng, scalar(rng))
                put('push', r, v)
                exp.append(('push', st('ok')))
                regs[r] = regs[r] + [bare(v)]
        elif x < .35:
            put('push', r, rng.choice(BAD))
            exp.append(('push', st('err')))
        elif x < .45:
            q = rng.choice(live)
            if len(regs[r]) + len(regs[q]) < 3000:
                put('pushl', r, q)
                exp.append(('push', st('ok')))
                regs[r] = regs[r] + regs[q]
        elif x < .6:
            q, d = rng.choice(live), rng.randrange(R)
            if len(regs[r]) + len(regs[q]) < 3000:
                put('add', d, r, q)
                regs[d] = regs[r] + regs[q]
        elif x < .72:
            d = rng.choice((r, rng.randrange(R)))
            for _ in range(rng.choice((1, 1, 1, 2, 5, 30))):
                put('tail', d, r)
                regs[d] = regs[r][1:]
                r = d
        elif x < .86:
            d = rng.choice((r, rng.randrange(R)))
            for _ in range(rng.choice((1, 1, 1, 2, 5, 30))):
                put('neck', d, r)
                regs[d] = regs[r][:-1]
                r = d
        elif x < .95:
            d = rng.randrange(R)
            put('copy', d, r)
            regs[d] = regs[r]
        else:
            put('drop', r)
            regs[r] = None
        if rng.random() < (.08 if heavy else .3):
            readall()
        elif r is not None and regs[r] is not None:
            read(r)
    readall()
    ops = [('lk', enc(('a', tuple(cmds))))]
    rep = ctx.run(ops)
    got = [e for e in rep.events if e[0] in ('read', 'ends', 'push', 'panic', 'abort')]
    for k, e in enumerate(exp):
        g = got[k] if k < len(got) else None
        if g is None or g[0] != e[0] or not all(same(a, b) for a, b in zip(e[1:], g[1:])):
            ctx.violation('C01-direct', 'operation history: observation %d: expected %s %s, observed %s' % (
                k, e[0], ' '.join(show(v) for v in e[1:]),
                'nothing (%s)' % rep.died if g is None else g[0] + ' ' + ' '.join(show(v) for v in g[1:])), ops)
            return
        if e[0] == 'read':
            ctx.seen(repr(e), len(e[1][1]) > 0)
            ctx.cov['reads'] += 1
            n = len(e[1][1])
            ctx.cov['longest'] = max(ctx.cov['longest'], n)
            ctx.kind('length', n if n < 8 else '%d..' % (n // 62 * 62))
    ctx.cov['histories'] += 1


def lit(v):
    if v[0] == 'n':
        return '%d' % v[1] if v[1] == int(v[1]) and v[1] >= 0 else '(%s)' % repr(v[1]) if v[1] < 0 else repr(v[1])
    if v[0] == 'b':
        return str(v[1]).lower()
    return '"' + v[1].replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def text(l):
    return ''.join(x[1] if x[0] == 's' else str(x[1]).lower() if x[0] == 'b' else ('%d' % x[1] if x[1] == int(x[1]) else repr(x[1])) for x in l)


class S:
    """A script over links and its model."""

    def __init__(self, rng):
        self.r, self.lines, self.exp = rng, [], []
        self.vars, self.n = {}, 0
        self.args = {'p': scalar(rng), 'q': scalar(rng), 'w': scalar(rng)}

    def name(self):
        self.n += 1
        return 'v%d' % self.n

    def item(self, d=0):
        r = self.r
        x = r.random()
        if x < .25:
            k = r.choice('pqw')
            return k, [bare(self.args[k])]
        if x < .4 and self.vars:
            k = r.choice(sorted(self.vars))
            return k, self.vars[k]
        if x < .47 and d < 2:
            return self.linklit(d + 1)
        v = scalar(r, True)
        return lit(v), [v]

    def linklit(self, d=0):
        ts, xs = [], []
        for _ in range(self.r.choice((0, 1, 2, 3, 5))):
            t, x = self.item(d)
            ts.append(t)
            xs = xs + x
        return 'link {%s}' % ' '.join(ts), xs

    def expr(self):
        r = self.r
        x = r.random()
        vs = sorted(self.vars)
        if not vs or x < .25:
            return self.linklit()
        a = r.choice(vs)
        if x < .4:
            b = r.choice(vs)
            if len(self.vars[a]) + len(self.vars[b]) < 1200:
                return '%s + %s' % (a, b), self.vars[a] + self.vars[b]
        if x < .55:
            return 'tail(%s)' % a, self.vars[a][1:]
        if x < .75:
            return 'neck(%s)' % a, self.vars[a][:-1]
        if x < .88:
            n = r.choice((0, 1, 3, 10, 70, 130))
            t, xs = self.item()
            return 'link i %d {i %s}' % (n, t), [y for i in range(n) for y in [num(i)] + xs] if len(xs) * n < 600 else None
        if x < .93:
            n, m = r.choice((0, 1, 3)), r.choice((0, 2, 5))
            return 'link i %d, j %d {j i}' % (n, m), [num(y) for i in range(n) for j in range(m) for y in (j, i)]
        return 'clone(%s)' % a, self.vars[a]

    def stmt(self):
        r, L = self.r, self.lines
        vs = sorted(self.vars)
        x = r.random()
        if not vs or x < .25:
            t, v = self.expr()
            if v is None or len(v) > 1500:
                return
            k = self.name()
            L.append('%s := %s' % (k, t))
            self.vars[k] = v
            return
        a = r.choice(vs)
        if x < .32:
            k = self.name()
            L.append('%s := %s' % (k, a))
            self.vars[k] = self.vars[a]
        elif x < .42:
            t, v = self.expr()
            if v is None or len(v) > 1500 or t in self.vars:
                return
            L.append('%s = %s' % (a, t))
            self.vars[a] = v
        elif x < .62:
            t, v = self.item()
            if len(v) + len(self.vars[a]) > 1500:
                return
            if r.random() < .25 and t in self.vars:
                L.append('%s -= %s' % (a, t))
                self.vars[a] = v + self.vars[a]
            else:
                L.append('%s += %s' % (a, t))
                self.vars[a] = self.vars[a] + v
        elif x < .7:
            n = r.choice((1, 5, 60, 124, 125))
            if len(self.vars[a]) > 1200:
                return
            L.append('for i %d {%s += i}' % (n, a))
            self.vars[a] = self.vars[a] + [num(i) for i in range(n)]
        elif x < .75:
            v = bare(self.args[r.choice('pqw')])
            k = [z for z in 'pqw' if self.args[z] is not None][0]
            L.append('grow(mut %s, %s)' % (a, k))
            self.vars[a] = self.vars[a] + [bare(self.args[k])]
        elif x < .8:
            k = self.name() + 'e'
            L.append('%s := try bad(mut %s, %s)' % (k, a, r.choice(('[]', '{}', '(1, 2)', 'none()', '[1]'))))
            L.append('emit(is_err(%s))' % k)
            self.exp.append(boolean(True))
        elif x < .85:
            b = r.choice(vs)
            k = self.name() + 'c'
            L.append('%s := [clone(%s), clone(%s)]' % (k, a, b))
            L.append('%s[0] += 7' % k)
            L.append('emit(%s[0])' % k)
            L.append('emit(%s[1])' % k)
            self.exp += [('l', tuple(self.vars[a] + [num(7)])), ('l', tuple(self.vars[b]))]
        else:
            m = r.randrange(5)
            v = self.vars[a]
            L.append('emit(%s(%s))' % (('head', 'tip', 'is_empty', 'str', 'head')[m], a) if m != 4 else 'emit(head(tail(%s)))' % a)
            if m == 3 and any(x[0] == 'n' and (x[1] != x[1] or abs(x[1]) > 1e9 or x[1] != 0 and abs(x[1]) < .01 or math.copysign(1, x[1]) < 0 and x[1] == 0)
                              for x in v):
                L.pop()
                return
            self.exp.append((('?', v[0] if v else None), ('?', v[-1] if v else None), boolean(not v), st(text(v)) if m == 3 else None,
                             ('?', v[1] if len(v) > 1 else None))[m])
        if r.random() < .4:
            self.dump()
        elif a in self.vars:
            self.show(a)

    def show(self, a):
        self.lines.append('emit(%s)' % a)
        self.exp.append(('l', tuple(self.vars[a])))

    def dump(self):
        for a in sorted(self.vars):
            if len(self.vars[a]) < 300 or self.r.random() < .2:
                self.show(a)


def script(ctx, rng):
    s = S(rng)
    for _ in range(rng.randint(8, 30)):
        s.stmt()
    s.dump()
    src = ('fn grow(mut l: link, v: any) {\n    l += v\n}\n\nfn bad(mut l: link, v: any) -> any {\n    l += v\n    return 0\n}\n\n'
           'fn main(p, q, w) -> any {\n    ' + '\n    '.join(s.lines) + '\n    return 0\n}\n')
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', src), ('rt', 'r'),
           ('callret', 'r', 'm', 'main') + tuple(enc(s.args[k]) for k in 'pqw')]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.inconclusive('rejected by the loader', src + (ld[0][2][1] if ld else ''))
        return
    got = [e for e in rep.events if e[0] in ('e', 'end', 'panic', 'abort')]
    for k, e in enumerate(s.exp):
        g = got[k] if k < len(got) else None
        if g is None or g[0] != 'e' or not same(e, g[1]):
            ctx.violation('C01-script', 'emission %d: expected %s, observed %s\n\n%s' % (
                k, show(e), 'nothing (%s)' % rep.died if g is None else g[0] + ' ' + ' '.join(show(v, 900) for v in g[1:]), src), ops)
            return
        if e[0] == 'l':
            ctx.seen(repr(e), len(e[1]) > 0)
            ctx.cov['script_reads'] += 1
    ctx.cov['scripts'] += 1
    if ctx.cov['scripts'] == 1:
        ctx.sample(src)


def case(ctx, rng, i):
    if i % 2:
        direct(ctx, rng)
    else:
        script(ctx, rng)
