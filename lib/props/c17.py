"""C17: lifetimes of references."""
import json
import lattice
from gen import *
from model import *

PLAN = {'quick': (25000, 750, 300), 'thorough': (200000, 60000, 2400)}
RULE = ('Random programs over nested blocks, branches and loops that store references to variables in arrays, objects and other '
        'variables, by assignment, element and property assignment, by-reference insertion, functions with declared lifetimes, '
        'returned values, branch and loop values, current objects and closures. Each program is either sound by construction or '
        'has exactly one operation that lets a variable be outlived. Non-trivial: an accepted program with a call of more than '
        'two events, or a rejected one; distinct by trace or text.')
TECHNIQUE = ('loader verdicts against soundness by construction, and a reference monitor scanning every stack slot at each host '
             'call of the accepted programs, with values compared with a reference interpreter whose slots are never reused')
NOTE = ('In accepted programs every reference reachable from the stack is checked at each host call, and values read through '
        'references are compared with the model. Verdicts are only judged for programs whose soundness is known by construction.')

P, Q, O = AN, AAN, ('o', (('p', AN),))
KINDS = (N, P, P, Q, Q, O)

LIB = [
    Fn('w1', [Param('a', None, lt='return')], [('ret', item('a'))], True),
    Fn('pickp', [Param('a', '[f64]', lt='return'), Param('b', '[f64]', lt='return'), Param('c', 'bool')],
       [('if', [(item('c'), [('ret', item('a'))])], None), ('ret', item('b'))], True, '[f64]'),
    Fn('mkc', [Param('a', '[f64]', lt='return'), Param('b', '[f64]')],
       [('ret', ('arr', [item('a'), call('clone', item('b'))]))], True, '[[f64]]'),
    Fn('put', [Param('a', '[[f64]]', mut=True), Param('b', '[f64]', lt='a')],
       [call('push_ref', ('mut', item('a')), item('b'))], False),
    Fn('put0', [Param('a', '[[f64]]', mut=True), Param('b', '[f64]', lt='a')],
       [('set', '=', item('a', ('[', lit(0), None)), item('b'))], False),
    Fn('putp', [Param('a', '{}', mut=True), Param('b', '[f64]', lt='a')],
       [('set', '=', item('a', ('.', 'p', None)), item('b'))], False),
    # A chain of lifetimes: c outlives b outlives a.
    Fn('chain', [Param('a', '[[f64]]', mut=True), Param('b', '[f64]', lt='a'), Param('c', '[f64]', lt='b')],
       [('set', '=', item('a', ('[', lit(0), None)), item('c')), call('push_ref', ('mut', item('a')), item('b'))], False),
]
BYNAME = {f.name: f for f in LIB}

# Functions that must be rejected on their own.
BAD_FNS = [
    'fn bad(a, b: \'return) -> {\n    return a\n}\n',
    'fn bad(a: \'return, b) -> {\n    return [a, b]\n}\n',
    'fn bad(a) -> {\n    return [a]\n}\n',
    'fn bad(a) -> {\n    return {p: a}\n}\n',
    'fn bad() -> {\n    x := [1]\n    return x\n}\n',
    'fn bad() -> {\n    x := [1]\n    return = x\n}\n',
    'fn bad() -> {\n    x := [1]\n    return = [[0]]\n    return[0] = x\n}\n',
    'fn bad() -> {\n    x := [1]\n    return = []\n    push_ref(mut return, x)\n}\n',
    'fn bad() -> {\n    x := [1]\n    y := [x]\n    return y\n}\n',
    'fn bad() -> {\n    x := [1]\n    return [[2], x]\n}\n',
    'fn bad(a: \'return) -> {\n    x := [1]\n    return [a, x]\n}\n',
    'fn bad(mut a, b) {\n    a[0] = b\n}\n',
    'fn bad(mut a: \'b, b) {\n    a[0] = b\n}\n',
    'fn bad(mut a, b) {\n    push_ref(mut a, b)\n}\n',
    'fn bad(mut a, b) {\n    insert_ref(mut a, 0, b)\n}\n',
    'fn bad(mut a, b) {\n    a = b\n}\n',
    'fn bad(mut a, b) {\n    a = [b]\n}\n',
    'fn bad(mut a) {\n    x := [1]\n    a[0] = x\n}\n',
    'fn bad(mut a) {\n    x := [1]\n    push_ref(mut a, x)\n}\n',
    'fn bad(mut a, b: \'a, c) {\n    a[0] = c\n}\n',
    'fn bad(mut a, b: \'a, c) {\n    a = [b, c]\n}\n',
    'fn bad(mut a: \'b, b: \'return) -> {\n    a[0] = b\n    return b\n}\n',
    'fn bad() ~ mut cu {\n    x := [1]\n    cu[0] = x\n}\n',
    'fn bad() ~ mut cu {\n    x := [1]\n    push_ref(mut cu, x)\n}\n',
    'fn bad(a) ~ mut cu {\n    cu[0] = a\n}\n',
    'fn bad() ~ cu -> {\n    return cu\n}\n',
    'fn bad(mut a) ~ cu {\n    a[0] = cu\n}\n',
    'fn bad() {\n    f := \\(x) = x\n    emit(1)\n}\n',
    'fn bad() {\n    f := \\(x) = [x]\n    emit(1)\n}\n',
    'bad(a) = a\n', 'bad(a) = [a]\n', 'bad(a, b: \'return) = [b, a]\n',
    'fn id2(a: \'return) -> {\n    return a\n}\nfn bad(a) -> {\n    return id2(a)\n}\n',
    'fn id2(a: \'return) -> {\n    return a\n}\nfn bad() -> {\n    x := [1]\n    return id2(x)\n}\n',
    'fn id2(a: \'return) -> {\n    return a\n}\nfn bad() -> {\n    x := [1]\n    return [1, id2(x)]\n}\n',
    'fn set2(mut a, b: \'a) {\n    a[0] = b\n}\nfn bad(mut a, b) {\n    set2(mut a, b)\n}\n',
    'fn set2(mut a, b: \'a) {\n    a[0] = b\n}\nfn bad(mut a) {\n    x := [1]\n    set2(mut a, x)\n}\n',
    'fn bad(a: \'b, b: \'a) {\n    emit(1)\n}\n',
    'fn bad(a: \'c, b) {\n    emit(1)\n}\n',
    'fn bad(a: \'return) {\n    emit(1)\n}\n',
    'fn bad() {\n    x := {\n        y := [1]\n        y\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := if true {\n        y := [1]\n        y\n    } else {\n        [2]\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := if true {\n        [1]\n    } else {\n        y := [1]\n        [y]\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := sift i 2 {\n        i\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := sift i 2 {\n        y := [i + 1]\n        y\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := sum i 2 {\n        y := i + 1\n        y\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := [0]\n    for i 2 {\n        x = [i]\n    }\n    emit(x)\n}\n',
    'fn bad() {\n    x := [0]\n    for i := 0; i < 2; i += 1 {\n        push_ref(mut x, i)\n    }\n    emit(x)\n}\n',
]
GOOD_FNS = [
    'fn good(a: \'return, b) -> {\n    return a\n}\n',
    'fn good(a: \'return, b) -> {\n    return [a, clone(b)]\n}\n',
    'fn good(a: \'return, b: \'return) -> {\n    return a\n}\n',
    'fn good(a: \'return, b: \'a) -> {\n    return b\n}\n',
    'fn good(a) -> {\n    return clone(a)\n}\n',
    'fn good() -> {\n    x := [1]\n    return clone(x)\n}\n',
    'fn good() -> {\n    x := [1]\n    return = clone(x)\n}\n',
    'fn good(mut a, b: \'a) {\n    a[0] = b\n}\n',
    'fn good(mut a, b: \'a) {\n    push_ref(mut a, b)\n}\n',
    'fn good(mut a, b: \'a, c: \'b) {\n    a[0] = c\n}\n',
    'fn good(mut a, b: \'a, c: \'b, d: \'c) {\n    a[0] = d\n}\n',
    'fn good(mut a, b) {\n    a[0] = clone(b)\n}\n',
    'fn good(mut a, b) {\n    push(mut a, b)\n}\n',
    'fn good(a, b) {\n    x := [a, b]\n    x[0] = b\n    emit(x)\n}\n',
    'fn good() ~ mut cu {\n    x := [1]\n    cu[0] = clone(x)\n}\n',
    'fn good() ~ cu {\n    x := cu\n    emit(x)\n}\n',
    'fn good() {\n    f := \\(x) = clone(x)\n    emit(1)\n}\n',
    'good(a: \'return) = a\n', 'good(a) = clone(a)\n',
    'fn id2(a: \'return) -> {\n    return a\n}\nfn good(a: \'return) -> {\n    return id2(a)\n}\n',
    'fn id2(a: \'return) -> {\n    return a\n}\nfn good(a) -> {\n    return clone(id2(a))\n}\n',
    'fn set2(mut a, b: \'a) {\n    a[0] = b\n}\nfn good(mut a, b: \'a) {\n    set2(mut a, b)\n}\n',
    'fn good() {\n    y := [1]\n    x := if true {\n        y\n    } else {\n        [2]\n    }\n    emit(x)\n}\n',
    'fn good() {\n    x := sift i 2 {\n        clone(i)\n    }\n    emit(x)\n}\n',
    'fn good() {\n    x := sum i 2 {\n        i\n    }\n    emit(x)\n}\n',
]


class V:
    def __init__(self, name, ty, rank, mut=True):
        self.name, self.ty, self.rank, self.mut = name, ty, rank, mut


class G:
    def __init__(self, rng):
        self.r = rng
        self.n = self.rank = self.ids = 0
        self.bad = False        # whether the program has its unsound operation
        self.want_bad = False
        self.depth = 0

    def id(self):
        self.ids += 1
        return lit(self.ids)

    def vis(self, sc):
        seen = {}
        for v in sc:
            seen[v.name] = v
        return list(seen.values())

    def new(self, sc, ty):
        if sc and self.r.random() < .1:
            name = self.r.choice(sc).name
        else:
            self.n += 1
            name = 'v%d' % self.n
        self.rank += 1
        v = V(name, ty, self.rank)
        return v

    def root(self, sc, ty, below):
        """A variable of the type with rank below; in unsound programs above."""
        c = [v for v in self.vis(sc) if v.ty == ty and v.rank < below]
        return self.r.choice(c) if c else None

    def num(self, sc, below):
        r = self.r
        if r.random() < .4:
            v = self.root(sc, N, below)
            if v:
                return item(v.name)
        return lit(r.randint(0, 9))

    def it(self, sc, below):
        """A place that holds an array of numbers; the rules want a reference here."""
        c = [item(v.name) for v in self.vis(sc) if v.ty == P and v.rank < below] * 2
        c += [item(v.name, ('[', lit(0), None)) for v in self.vis(sc) if v.ty == Q and v.rank < below]
        c += [item(v.name, ('.', 'p', None)) for v in self.vis(sc) if v.ty == O and v.rank < below]
        return self.r.choice(c) if c else None

    def value_it(self, sc, rank):
        if self.want_bad and not self.bad and self.r.random() < .5:
            e = self.it([v for v in self.vis(sc) if v.rank > rank], 10 ** 9)
            if e is not None:
                self.bad = True
                return e
        return self.it(sc, rank)

    def e(self, ty, sc, below, d=0):
        """An expression whose references are all to variables of rank below."""
        r = self.r
        x = r.random()
        if ty == N:
            return self.num(sc, below)
        if x < .3:
            v = self.root(sc, ty, below)
            if v:
                return item(v.name)
        any_ = lambda t: self.root(sc, t, 10 ** 9)
        if x < .4:
            v = any_(ty)
            if v:
                return call('clone', item(v.name))
        if ty == P:
            if x < .55:
                v = self.root(sc, Q, below)
                if v:
                    return item(v.name, ('[', lit(0), None))
            if x < .65:
                v = self.root(sc, O, below)
                if v:
                    return item(v.name, ('.', 'p', None))
            if x < .75 and d < 2:
                a, b = self.it(sc, below), self.it(sc, below)
                if a:
                    return call('pickp', a, b, ('bool', r.random() < .5))
            if x < .8 and d < 2:
                a = self.it(sc, below)
                if a:
                    return call('w1', a)
            if x < .86 and d < 1:
                return ('if', [(('cmp', '<', self.num(sc, 10 ** 9), lit(5)), [self.e(P, sc, below, d + 1)])],
                        [self.e(P, sc, below, d + 1)])
            if x < .9 and d < 1:
                v = self.root(sc, Q, below)
                if v and v.mut:
                    return call('pop', ('mut', item(v.name)))
            if x < .93 and d < 2:
                return call('unwrap_or', call('some', self.e(P, sc, 10 ** 9, 2)), ('arr', [lit(1)]))
            return ('arr', [self.num(sc, below) for _ in range(r.randint(1, 3))])
        if ty == Q:
            if x < .6 and d < 2:
                a = self.it(sc, below)
                if a:
                    return call('mkc', a, self.e(P, sc, 10 ** 9, d + 1))
            if x < .68 and d < 1:
                self.n += 1
                p = self.e(P, sc, below, 2)
                return ('forn', 'sift', None, [('i%d' % self.n, None, lit(r.randint(1, 2)))], [p])
            if x < .74:
                return ('fill', self.e(P, sc, below, 2), lit(r.randint(1, 2)))
            if x < .8 and d < 1:
                return ('if', [(('cmp', '<', self.num(sc, 10 ** 9), lit(5)), [self.e(Q, sc, below, d + 1)])],
                        [self.e(Q, sc, below, d + 1)])
            return ('arr', [self.e(P, sc, below, d + 1) for _ in range(r.randint(1, 3))])
        return ('obj', [('p', self.e(P, sc, below, d + 1))])

    def badref(self, ty, sc, rank):
        """An expression that refers to a variable that the target outlives."""
        r = self.r
        late = [v for v in self.vis(sc) if v.rank > rank and v.ty in (N, P, Q, O)]
        r.shuffle(late)
        for v in late:
            it = item(v.name)
            e = None
            if v.ty == ty and ty != N:
                e = it
            elif ty == P:
                e = {Q: item(v.name, ('[', lit(0), None)), O: item(v.name, ('.', 'p', None)),
                     N: ('arr', [lit(1), it] if r.random() < .5 else [it])}[v.ty]
            elif ty == Q and v.ty == P:
                fill = self.e(P, sc, rank, 2)
                e = r.choice((('arr', [it]), ('arr', [fill, it]), ('arr', [it, fill]), ('fill', it, lit(2)),
                              call('mkc', it, fill)))
            elif ty == O and v.ty == P:
                e = ('obj', [('p', it)])
            if e is None:
                continue
            x = r.random()
            if x < .12 and ty == P:
                a = self.it(sc, rank)
                if a and e[0] == 'item':
                    e = call('pickp', a, e, ('bool', True))
            elif x < .2:
                e = ('if', [(('bool', r.random() < .5), [e])], [self.e(ty, sc, rank, 2)])
            elif x < .26:
                e = ('if', [(('bool', r.random() < .5), [self.e(ty, sc, rank, 2)])], [e])
            elif x < .32 and ty in (P, O):
                e = call('w1', e) if ty == P and e[0] == 'item' else e
            return e
        return None

    def value(self, ty, sc, rank):
        """The value for a target of the rank: sound, or the one unsound."""
        if self.want_bad and not self.bad and self.r.random() < .5:
            e = self.badref(ty, sc, rank)
            if e is not None:
                self.bad = True
                return e
        return self.e(ty, sc, rank)

    def store(self, sc):
        r = self.r
        ts = [v for v in self.vis(sc) if v.ty in (P, Q, O) and v.mut]
        if not ts:
            return None
        if self.want_bad and not self.bad and r.random() < .7:
            # Prefer an old target, so that something newer exists.
            t = min(r.sample(ts, min(3, len(ts))), key=lambda v: v.rank)
        else:
            t = r.choice(ts)
        x = r.random()
        if t.ty == P:
            if x < .5:
                return ('set', '=', item(t.name), self.value(P, sc, t.rank))
            n = self.num_ref(sc, t.rank)
            return n and call('push_ref', ('mut', item(t.name)), n)
        if t.ty == Q:
            m = ('mut', item(t.name))
            if x < .25:
                return ('set', '=', item(t.name), self.value(Q, sc, t.rank))
            if x < .45:
                return ('set', '=', item(t.name, ('[', lit(0), None)), self.value(P, sc, t.rank))
            if x < .8:
                v = self.value_it(sc, t.rank)
                if v is None:
                    return None
                if x < .58:
                    return call('push_ref', m, v)
                if x < .66:
                    return call('insert_ref', m, lit(0), v)
                return call(r.choice(('put', 'put0')), m, v)
            if x < .9:
                # Sound when the third argument outlives the second and the second the first.
                c = [v for v in self.vis(sc) if v.ty == P and v.rank < t.rank]
                c.sort(key=lambda v: v.rank)
                if len(c) >= 2:
                    j = r.randrange(1, len(c))
                    k = r.randrange(0, j)
                    b, a = c[j], c[k]
                    if self.want_bad and not self.bad and b.rank != a.rank and b.rank > 0:
                        self.bad = True
                        a, b = b, a
                    if a.rank == b.rank or (a.rank < 0 and b.rank < 0):
                        if a is not b and not self.bad:
                            return None
                    return call('chain', m, item(b.name), item(a.name))
            return call('push', m, self.e(P, sc, 10 ** 9, 1))
        if x < .4:
            return ('set', '=', item(t.name), self.value(O, sc, t.rank))
        if x < .75:
            return ('set', '=', item(t.name, ('.', 'p', None)), self.value(P, sc, t.rank))
        v = self.value_it(sc, t.rank)
        return v and call('putp', ('mut', item(t.name)), v)

    def num_ref(self, sc, rank):
        if self.want_bad and not self.bad and self.r.random() < .5:
            late = [v for v in self.vis(sc) if v.ty == N and v.rank > rank]
            if late:
                self.bad = True
                return item(self.r.choice(late).name)
        v = self.root(sc, N, rank)
        return v and item(v.name)

    def body(self, sc, k):
        r = self.r
        sc = list(sc)
        out = []
        for _ in range(k):
            x = r.random()
            if x < .38:
                t = r.choice(KINDS)
                e = self.e(t, sc, 10 ** 9) if t != N else lit(r.randint(0, 9))
                v = self.new(sc, t)
                sc.append(v)
                out.append(decl(v.name, e))
            elif x < .72:
                s = self.store(sc)
                if s:
                    out.append(s)
            elif x < .84 or self.depth > 2:
                vs = self.vis(sc)
                r.shuffle(vs)
                for v in vs[:2]:
                    out.append(call('emit_id', self.id(), item(v.name)))
            else:
                self.depth += 1
                y = r.random()
                if y < .5:
                    out.append(('if', [(('cmp', '<', self.num(sc, 10 ** 9), lit(r.choice((5, 9, 20)))), self.body(sc, r.randint(2, 4)))],
                                self.body(sc, 2) if r.random() < .3 else None))
                elif y < .8:
                    self.n += 1
                    self.rank += 1
                    i = V('i%d' % self.n, N, self.rank, False)
                    out.append(('forn', 'for', None, [(i.name, None, lit(2))], self.body(sc + [i], r.randint(2, 4))))
                else:
                    out.append(('loop', None, self.body(sc, r.randint(2, 4)) + [('break', None)]))
                self.depth -= 1
        vs = self.vis(sc)
        r.shuffle(vs)
        for v in vs[:3]:
            out.append(call('emit_id', self.id(), item(v.name)))
        return out

    def function(self):
        r = self.r
        ps = [Param('a0', 'f64'), Param('a1', '[f64]'), Param('a2', '[[f64]]')]
        sc = [V('a0', N, -1, False), V('a1', P, -1, False), V('a2', Q, -1, False)]
        b = self.body(sc, r.randint(6, 10))
        b.append(('ret', lit(1)))
        return Fn('f0', ps, b, True, 'f64')


def used(x, names):
    if isinstance(x, (tuple, list)):
        if x and x[0] == 'call' and isinstance(x[1], str):
            names.add(x[1])
        for y in x:
            used(y, names)


def verdict(ctx, text, good, sig):
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text)]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld:
        ctx.violation(sig, 'loading did not end: %s\n\n%s' % (rep.events, text), ops)
        return
    ok = ld[0][1][1] == 'ok'
    ctx.seen(text)
    ctx.cov['verdict_accept' if ok else 'verdict_reject'] += 1
    if good and not ok:
        ctx.violation(sig, 'a sound program was rejected\n%s\n%s' % (ld[0][2][1], text), ops)
    elif not good and ok:
        ctx.violation(sig, 'an unsound program was accepted\n' + text, ops)


BYNAME_LIB = ("fn id(a: 'return) -> { return a }\nfn put(mut a, b: 'a) { push_ref(mut a, b) }\n"
              "fn wrap(a: 'return) -> { return [a] }\nfn put2(mut a, b, c: 'a) { push_ref(mut a, c) }")


def by_name(ctx, rng):
    """Functions called by name at run time: the arguments are checked when calling."""
    L = ['fn main() {', '    m := unwrap(module(in: "x", string: %s, imports: []))' % json.dumps(BYNAME_LIB)]
    exp, fault, ind = [], None, '    '
    env, depth, k, ids = [], 0, 0, 0
    scopes = []
    steps = rng.randint(4, 10)
    last = rng.random() < .5     # end with a call that must fail
    for step in range(steps):
        x = rng.random()
        vs = {}
        for n, v in env:
            vs[n] = v
        names = list(vs)
        order = {n: j for j, (n, _) in enumerate(env)}
        if not names or x < .3:
            k += 1
            if names and rng.random() < .5:
                o = rng.choice(names)
                L.append('%sv%d := [%s]' % (ind, k, o))
                env.append(('v%d' % k, ['a', ('r', vs[o])]))
            else:
                L.append('%sv%d := [%d]' % (ind, k, k))
                env.append(('v%d' % k, ['a', float(k)]))
        elif x < .45 and depth < 3:
            L.append(ind + 'if true {')
            scopes.append(len(env))
            depth += 1
            ind += '    '
        elif x < .55 and depth:
            depth -= 1
            ind = ind[4:]
            L.append(ind + '}')
            del env[scopes.pop():]
        elif x < .7:
            f = rng.choice(('id', 'wrap'))
            t, a = rng.choice(names), rng.choice(names)
            L.append('%s%s = call_ret(m, "%s", [%s])' % (ind, t, f, a))
            v = snap(vs[a])
            new = v if f == 'id' else ['a', v]
            vs[t][1:] = new[1:]
        else:
            a, b = rng.choice(names), rng.choice(names)
            if order[b] >= order[a]:
                if a == b or not last or step < steps - 2:
                    continue
                L.append('%scall(m, "put(mut,_)", [%s, %s])' % (ind, a, b))
                fault = 'Argument 1 does not outlive argument 0'
                break
            if rng.random() < .5:
                L.append('%scall(m, "put(mut,_)", [%s, %s])' % (ind, a, b))
            else:
                L.append('%scall(m, "put2(mut,_,_)", [%s, %s, %s])' % (ind, a, rng.choice(names), b))
            vs[a].append(('r', vs[b]))
        n = rng.choice([n for n, _ in env]) if env else None
        if n and size(dict(env)[n]) < 200:
            ids += 1
            L.append('%semit_id(%d, %s)' % (ind, ids, n))
            exp.append((float(ids), snap(dict(env)[n])))
        elif n:
            return
    while depth:
        depth -= 1
        ind = ind[4:]
        L.append(ind + '}')
    text = '\n'.join(L + ['}', ''])
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r'), ('call', 'r', 'm', 'main')]
    rep = ctx.run(ops)
    got = [(e[1][1], plain(e[2])) for e in rep.of('E')]
    end = rep.of('end')
    d = None
    if rep.of('badref'):
        d = 'a reference to a variable that is gone was on the stack'
    elif rep.of('load')[0][1][1] != 'ok':
        d = 'rejected: ' + rep.of('load')[0][2][1]
    elif not end:
        d = 'no end was observed'
    elif got != exp:
        d = 'expected %r, observed %r' % (exp, got)
    elif (end[0][1][1] == 'ok') != (fault is None):
        d = 'expected %s, observed %s' % (fault or 'no error', show(end[0][2]))
    elif fault and fault not in end[0][2][1]:
        d = 'expected %s, observed %s' % (fault, show(end[0][2]))
    if d:
        ctx.violation('C17-byname', d + '\n\n' + text, ops)
    ctx.seen(text, len(exp) > 1)
    ctx.cov['by_name_fault' if fault else 'by_name_ok'] += 1


def carried(ctx, rng):
    text, key, reject, accept, exp = lattice.make(rng)
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')] + [('call', 'r', 'm', 'run%d' % n) for n in range(4)]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld:
        ctx.violation('C17-carried', 'loading did not end: %s\n\n%s' % (rep.events[:3], text), ops)
        return
    ctx.seen((key, reject))
    ctx.kind('place x carrier', '%s: %s' % (key[0], ' '.join(key[1])))
    if ld[0][1][1] != 'ok':
        ctx.cov['carried_reject'] += 1
        if accept:
            ctx.violation('C17-carried', 'a sound program was rejected\n%s\n%s' % (ld[0][2][1], text), ops)
        return
    ctx.cov['carried_accept'] += 1
    d = None
    got = [show(e[2], 10 ** 6) for e in rep.of('E') if e[1][1] == 1.0]
    end = rep.of('end')
    if reject:
        d = 'an unsound program was accepted'
    elif rep.of('badref'):
        d = 'a reference to a variable that is gone was on the stack'
    elif any(e[1][1] != 'ok' and 'Expected assigning to' in e[2][1] for e in end):
        # The place holds a value of another type.
        ctx.cov['carried_other_type'] += 1
    elif any(e[1][1] != 'ok' for e in end) or len(end) != 4:
        d = 'unexpected end: %s' % [show(e[2]) for e in end if e[1][1] != 'ok'][:1]
    elif got != exp:
        d = 'expected %s, observed %s' % (exp, got)
    if d:
        ctx.violation('C17-carried', d + '\n\n' + text, ops)


def snap(v):
    if isinstance(v, tuple):
        return snap(v[1])
    if isinstance(v, list):
        return ['a'] + [snap(x) for x in v[1:]]
    return v


def size(v):
    return 1 if isinstance(v, float) else sum(size(x) for x in snap(v)[1:])


def plain(v):
    return ['a'] + [plain(x) for x in v[1]] if v[0] == 'a' else v[1]


def case(ctx, rng, i):
    nb, ng = len(BAD_FNS), len(GOOD_FNS)
    if i < nb + ng:
        t = BAD_FNS[i] if i < nb else GOOD_FNS[i - nb]
        verdict(ctx, t + '\nfn main() {}\n', i >= nb, 'C17-fn')
        return
    if rng.random() < .12:
        return by_name(ctx, rng)
    if rng.random() < .35:
        return carried(ctx, rng)
    g = G(rng)
    g.want_bad = rng.random() < .4
    f = g.function()
    if g.want_bad and not g.bad:
        ctx.cov['no_place_for_unsound'] += 1
        return
    names = set()
    used(f.body, names)
    fns = [x for x in LIB if x.name in names] + [f]
    if g.bad:
        verdict(ctx, print_program(fns)[0], False, 'C17-reject')
        return
    calls = [('f0', [num(rng.randint(0, 9)), ('a', (num(1), num(2))), ('a', (('a', (num(3),)), ('a', (num(4), num(5)))))])
             for _ in range(2)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.violation('C17-model', 'the model followed a dead reference in a sound program\n' + print_program(fns)[0])
        return
    n = ctx.unsure['rejected by the loader']
    run_program(ctx, fns, calls, exp, 'C17-run')
    if ctx.unsure['rejected by the loader'] > n:
        del ctx.unsure['rejected by the loader']
        ctx.violation('C17-accept', 'a sound program was rejected\n' + ctx.unsure_ex.pop('rejected by the loader', ''))
