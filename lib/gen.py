"""Generates typed Dyon programs that the loader must accept.

Types: 'n' 'b' 's' 'v' 'l', ('a', T), ('o', ((key, T), ...)), ('?', T), ('r', T),
('c', (T...), R) closures.
"""
from lang import Fn, Param
from wire import num, boolean, st

N, B, S, V, L = 'n', 'b', 's', 'v', 'l'
AN = ('a', N)
AAN = ('a', AN)
OB = ('o', (('p', N), ('q', AN)))
AOB = ('a', OB)
OO = ('o', (('k', OB), ('m', N)))


def item(name, *ids, t=None):
    return ('item', name, list(ids), t)


def lit(x):
    return ('num', float(x))


def call(name, *args):
    return ('call', name, list(args))


def decl(name, e):
    return ('decl', item(name), e)


def emit(e):
    return ('call', 'emit', [e])


def tytext(t):
    if t == N:
        return 'f64'
    if t == B:
        return 'bool'
    if t == S:
        return 'str'
    if t == V:
        return 'vec4'
    if t == L:
        return 'link'
    if t[0] == 'a':
        return '[' + tytext(t[1]) + ']'
    if t[0] == 'o':
        return '{}'
    if t[0] == '?':
        return 'opt[' + tytext(t[1]) + ']'
    if t[0] == 'r':
        return 'res[' + tytext(t[1]) + ']'
    if t[0] == 'c':
        return '\\(' + ', '.join(tytext(x) for x in t[1]) + ') -> ' + tytext(t[2])
    raise ValueError(t)


def has_return(x):
    if isinstance(x, (tuple, list)):
        if x and x[0] in ('ret',) and len(x) == 2:
            return True
        if len(x) == 4 and x[0] == 'set' and x[2][1] == 'return':
            return True
        if x and x[0] == 'clo':
            return False
        return any(has_return(y) for y in x)
    return False


class Var:
    __slots__ = ('name', 'ty', 'mut', 'order', 'cur', 'param')

    def __init__(self, name, ty, mut=True, order=0, cur=False, param=False):
        self.name, self.ty, self.mut, self.order, self.cur, self.param = name, ty, mut, order, cur, param


class Helper:
    def __init__(self, fn, ptys, rty, lazy=False):
        self.fn, self.ptys, self.rty, self.lazy = fn, ptys, rty, lazy


class Gen:
    DEFAULT = dict(decl=6, set=4, emit=4, if_=3, forn=2, for_=1, loop=1, block=1, jump=2, ret=1, retset=0,
                   path=2, coll=1, mutcall=1, probe=0, cur=0, clo=0, fault=0, prop=0, nest=0)

    def __init__(self, rng, weights=None, budget=12, ew=None, maxdepth=3):
        self.r = rng
        self.w = dict(self.DEFAULT)
        if weights:
            self.w.update(weights)
        # Weights of special expression forms.
        self.ew = dict(trace=1, ifx=1, loopx=2, callx=2, clox=0, andor=2, norm=1, sec=0, lazy=0, opt=0, curx=0, retx=.12)
        if ew:
            self.ew.update(ew)
        self.budget = budget
        self.maxdepth = maxdepth
        self.fns = []
        self.helpers = []
        self.n = 0
        self.ids = 0
        self.vars = []
        self.loops = []       # labels reachable by break/continue
        self.returns = None   # type or 'any' or None
        self.cur_decls = {}   # name -> type of current objects the entry declares
        self.used = set()
        self.order = 0
        self.depth = 0
        self.dump = 4
        self.alen = (0, 1, 2, 2, 3, 3, 4)
        self.idxs = (0, 0, 1, 1, 2)

    # -- names
    def name(self, p='v'):
        # Shadowing is part of the language: reuse names now and then.
        if self.vars and self.r.random() < 0.12:
            v = self.r.choice(self.vars)
            if not v.cur:
                return v.name
        self.n += 1
        return '%s%d' % (p, self.n)

    def id(self):
        self.ids += 1
        return lit(self.ids)

    def visible(self):
        seen, r = set(), []
        for v in reversed(self.vars):
            if v.name not in seen:
                seen.add(v.name)
                r.append(v)
        return r

    def pick(self, ty, mut=False):
        c = [v for v in self.visible() if v.ty == ty and (v.mut or not mut)]
        return self.r.choice(c) if c else None

    def add(self, name, ty, mut=True, cur=False, param=False):
        self.order += 1
        v = Var(name, ty, mut, self.order, cur, param)
        self.vars.append(v)
        return v

    # -- paths to places of a type inside variables
    def places(self, ty, mut=False):
        out = []

        def walk(v, t, ids):
            if t == ty:
                out.append((v, ids))
            if len(ids) > 2:
                return
            if t[0] == 'a' and isinstance(t, tuple):
                walk(v, t[1], ids + [('[', lit(self.r.choice(self.idxs)), None)])
            elif isinstance(t, tuple) and t[0] == 'o':
                for k, kt in t[1]:
                    if self.r.random() < 0.2:
                        walk(v, kt, ids + [('[', ('str', k), None)])
                    else:
                        walk(v, kt, ids + [('.', k, None)])
        for v in self.visible():
            if v.mut or not mut:
                walk(v, v.ty, [])
        return out

    def place(self, ty, mut=False, nested=False):
        c = self.places(ty, mut)
        if nested:
            c = [x for x in c if x[1]]
        if not c:
            return None
        return self.collapse(*self.r.choice(c))

    def collapse(self, v, ids):
        for j in range(len(ids) - 1):
            if ids[j][0] == ids[j + 1][0] == '[' and ids[j][1][0] == ids[j + 1][1][0] == 'num' and self.r.random() < .25:
                # An array of indices.
                k = 3 if len(ids) > j + 2 and ids[j + 2][0] == '[' and ids[j + 2][1][0] == 'num' else 2
                ids = ids[:j] + [('[', ('arr', [x[1] for x in ids[j:j + k]]), ids[j + k - 1][2])] + ids[j + k:]
                break
        return v, item(v.name, *ids)

    # -- expressions
    def expr(self, ty, d=0, fresh=False):
        """Any expression of the type; `fresh`: one without a lifetime."""
        r = self.r
        if not fresh and r.random() < 0.45:
            p = self.place(ty)
            if p:
                return p[1]
        if fresh and r.random() < 0.3:
            p = self.place(ty)
            if p:
                if ty == N and r.random() < 0.6:
                    return ('bin', '+', p[1], lit(r.choice((0, 1, 2))))
                return call('clone', p[1])
        k = ty if isinstance(ty, str) else ty[0]
        return getattr(self, 'e_' + {'?': 'opt', 'r': 'res'}.get(k, k))(ty, d)

    def choose(self, opts):
        opts = [(w, f) for w, f in opts if w > 0]
        t = self.r.random() * sum(w for w, _ in opts)
        for w, f in opts:
            t -= w
            if t <= 0:
                return f
        return opts[-1][1]

    def operand(self, ty, d):
        return self.expr(ty, d + 1)

    def e_n(self, ty, d):
        r, ew = self.r, self.ew
        num_ = lambda: lit(r.choice((0, 1, 2, 3, 4, 5, 7, -1, -2, 0.5, 10)))
        if d >= self.maxdepth:
            return num_()
        two = lambda: ('bin', r.choice('++--**/%^' if r.random() < .2 else '+-*'), self.operand(N, d), self.operand(N, d))
        opts = [(3, num_), (5, two), (ew['trace'] * 1.5, lambda: call('tn', self.id(), self.operand(N, d))),
                (0.6, lambda: ('neg', self.operand(N, d)))]
        if d < 2:
            opts += [(ew['ifx'], lambda: self.ifx(N, d)), (ew['loopx'], lambda: self.loopx(N, d)),
                     (ew['callx'], lambda: self.callx(N, d))]
        a = self.place(AN)
        if a:
            opts.append((1, lambda: call('len', a[1])))
        if self.place(V):
            opts.append((0.7, lambda: call(r.choice('xyzw'), self.place(V)[1])))
        if ew['clox']:
            opts.append((ew['clox'], lambda: self.clox(N, d)))
        if ew['opt']:
            opts.append((ew['opt'], lambda: call('unwrap_or', self.operand(r.choice((('?', N), ('r', N))), d),
                                                 self.operand(N, d))))
        if ew['curx'] and self.cur_decls:
            opts.append((ew['curx'], lambda: self.curx(N)))
        return self.choose(opts)()

    def curx(self, ty):
        names = [k for k, t in self.cur_decls.items() if t == N]
        return call('cur_num', ('str', self.r.choice(names))) if names else lit(1)

    def e_b(self, ty, d):
        r, ew = self.r, self.ew
        lit_ = lambda: ('bool', r.random() < 0.5)
        cmp_ = lambda: ('cmp', r.choice(('<', '<=', '>', '>=', '==', '!=')), self.operand(N, d + 1), self.operand(N, d + 1))
        if d >= self.maxdepth:
            return lit_()
        opts = [(1, lit_), (5, cmp_), (ew['trace'], lambda: call('tb', self.id(), self.operand(B, d))),
                (ew['andor'], lambda: (r.choice(('and', 'or')), self.operand(B, d), self.operand(B, d))),
                (0.7, lambda: ('not', self.operand(B, d))),
                (0.3, lambda: ('cmp', r.choice(('==', '!=', '<')), self.operand(S, d + 1), self.operand(S, d + 1))),
                (0.5, lambda: ('bin', r.choice('+-*^'), self.operand(B, d), self.operand(B, d)))]
        if d < 2:
            opts += [(ew['ifx'] * .5, lambda: self.ifx(B, d)), (ew['loopx'] * .6, lambda: self.loopx(B, d)),
                     (ew['callx'] * .5, lambda: self.callx(B, d))]
        if self.place(L):
            opts.append((0.5, lambda: call('is_empty', self.place(L)[1])))
        return self.choose(opts)()

    def e_s(self, ty, d):
        r = self.r
        lit_ = lambda: ('str', r.choice(('', 'a', 'bc', 'x y', 'é', '"q"', 'n\nl')))
        if d >= self.maxdepth:
            return lit_()
        return self.choose([(3, lit_), (2, lambda: ('bin', '+', self.operand(S, d), self.operand(S, d))),
                            (1, lambda: call('str', self.operand(N, d))), (.5, lambda: call('ts', self.id(), self.operand(S, d)))])()

    def e_v(self, ty, d):
        r = self.r
        lit_ = lambda: ('vec', [self.operand(N, d + 1) for _ in range(r.randint(2, 4))])
        if d >= self.maxdepth - 1:
            return ('vec', [lit(r.randint(-3, 5)) for _ in range(r.randint(2, 4))])
        return self.choose([(3, lit_), (2, lambda: ('bin', r.choice('+-*'), self.operand(V, d), self.operand(r.choice((V, N)), d))),
                            (.5, lambda: call('tv', self.id(), self.operand(V, d))), (.5, lambda: ('neg', self.operand(V, d)))])()

    def e_l(self, ty, d):
        r = self.r
        lit_ = lambda: ('link', [self.operand(r.choice((N, N, S, B)), d + 1) for _ in range(r.randint(0, 3))])
        if d >= self.maxdepth:
            return ('link', [lit(r.randint(0, 4)) for _ in range(r.randint(0, 2))])
        opts = [(3, lit_), (1, lambda: ('bin', '+', self.operand(L, d), self.operand(L, d)))]
        if d < 2:
            opts.append((1, lambda: self.loopx(L, d)))
        if self.place(L):
            opts.append((1, lambda: call(r.choice(('tail', 'neck')), self.place(L)[1])))
        return self.choose(opts)()

    def e_a(self, ty, d):
        r = self.r
        el = ty[1]
        lit_ = lambda: ('arr', [self.expr(el, d + 1, fresh=True) for _ in range(r.choice(self.alen))])
        if d >= self.maxdepth:
            return ('arr', [self.expr(el, d + 1, fresh=True) for _ in range(max(1, r.choice(self.alen)))])
        opts = [(4, lit_), (1, lambda: ('fill', self.expr(el, d + 1, fresh=True), lit(r.choice(self.alen))))]
        if el == N and d < 2:
            opts.append((1, lambda: self.loopx(ty, d)))
        p = self.place(ty)
        if p:
            opts.append((1, lambda: call('clone', p[1])))
        return self.choose(opts)()

    def e_o(self, ty, d):
        return ('obj', [(k, self.expr(t, d + 1, fresh=True)) for k, t in ty[1]])

    def e_opt(self, ty, d):
        if self.r.random() < .5:
            return call('some', self.expr(ty[1], d + 1))
        return call('none')

    def e_res(self, ty, d):
        if self.r.random() < .5:
            return call('ok', self.expr(ty[1], d + 1))
        return call('err', ('str', self.r.choice(('e1', 'e2'))))

    def e_c(self, ty, d):
        return self.closure(ty)

    # -- structured expressions
    def scoped(self, f):
        k = len(self.vars)
        self.depth += 1
        try:
            return f()
        finally:
            del self.vars[k:]
            self.depth -= 1

    def body_value(self, ty, d, stmts=0):
        """A block ending in a fresh value."""
        def f():
            b = [s for s in (self.stmt() for _ in range(stmts)) if s]
            e = self.expr(ty, d + 1, fresh=True)
            # `!x` has another type than a plain boolean.
            return b + [call('clone', e) if e[0] == 'not' or e[0] == 'forn' and e[1] in ('min', 'max', 'any', 'all') else e]
        return self.scoped(f)

    def ifx(self, ty, d):
        self.budget -= 3
        arms = [(self.expr(B, 2), self.body_value(ty, d))]
        if self.r.random() < .3 and self.budget > 3:
            self.budget -= 2
            arms.append((self.expr(B, 2), self.body_value(ty, d)))
        if self.r.random() < self.ew['retx'] and self.returns is not None:
            arms[0][1].insert(0, ('if', [(self.expr(B, 2), [('ret', self.retval())])], None))
        return ('if', arms, self.body_value(ty, d))

    def bounds(self):
        r = self.r
        if r.random() < .3:
            a = lit(r.choice((0, 1, 2, -1, 0.5)))
            return a, ('bin', '+', lit(r.choice((0, 1, 2, 3))), a) if r.random() < .3 else lit(r.choice((0, 1, 2, 3, 4)))
        p = self.pick(N)
        if p and r.random() < .15:
            return None, ('bin', '%', item(p.name), lit(4))
        return None, lit(r.choice((0, 1, 2, 2, 3, 3, 4)))

    def header(self, d, maxvars=2):
        """Loop variables; returns (vars, adds)."""
        r = self.r
        k = 1 if maxvars < 2 or r.random() < .75 else r.randint(2, maxvars)
        vs = []
        arr = self.pick(AN)
        infer_i = -1
        if arr and r.random() < .25:
            infer_i = r.randrange(k)
        for j in range(k):
            self.n += 1
            nm = 'i%d' % self.n
            if j == infer_i:
                vs.append((nm, None if r.random() < .8 else lit(0), ('infer', item(arr.name))))
                if vs[-1][1] is not None:
                    vs[-1] = (nm, None, vs[-1][2])
            else:
                a, b = self.bounds()
                vs.append((nm, a, b))
        idx = ('item', arr.name, [('[', item(vs[infer_i][0]), None)]) if infer_i >= 0 else None
        return vs, idx

    def loopx(self, ty, d, outer=()):
        r = self.r
        self.budget -= 3
        kinds = {N: ['sum', 'prod', 'min', 'max', 'sum'], B: ['any', 'all'], L: ['link']}.get(ty, ['sift'])
        kind = r.choice(kinds)
        label = None
        if r.random() < .2:
            self.n += 1
            label = 'l%d' % self.n
        packable = kind != 'sift'
        vs, idx = self.header(d, 3 if packable else 1)
        if not packable:
            vs = vs[:1]
            if idx is not None and vs[0][2][0] != 'infer':
                idx = None
        saved = self.loops
        self.loops = [(None, True)] + ([(label, True)] if label else []) + list(outer) * 2

        def f():
            for v in vs:
                self.add(v[0], N, mut=False)
            b = []
            if kind == 'link':
                items = [self.expr(r.choice((N, N, S)), d + 2) for _ in range(r.randint(1, 2))]
                if idx is not None:
                    items.insert(0, idx)
                return items
            if r.random() < .35 and self.budget > 2:
                self.budget -= 3
                j = self.jump()
                if j:
                    b.append(('if', [(self.expr(B, 2), [j])], None))
            if r.random() < self.ew['retx'] and self.returns is not None:
                b.append(('if', [(self.expr(B, 2), [('ret', self.retval())])], None))
            if r.random() < .15 and self.budget > 2:
                s_ = self.stmt()
                if s_[0] in ('decl', 'set', 'call', 'if'):
                    b.append(s_)
            if idx is None and kind not in ('link', 'sift') and r.random() < .2 and self.budget > 3 and d < 3:
                # A loop in tail position may leave the loops around it.
                b.append(self.loopx(ty, d + 1, outer=tuple(outer) + (((label, True),) if label else ())))
            elif idx is not None:
                if kind in ('any', 'all'):
                    b.append(('cmp', r.choice(('<', '>', '==')), idx, self.expr(N, d + 2)))
                elif r.random() < .5:
                    b.append(call('clone', idx))
                else:
                    b.append(('bin', r.choice('+*-'), idx, self.expr(N, d + 2)))
            else:
                b.append(self.expr({'any': B, 'all': B}.get(kind, N) if kind != 'sift' else ty[1], d + 1, fresh=True))
            return b
        body = self.scoped(f)
        self.loops = saved
        return ('forn', kind, label, vs, body)

    def callx(self, ty, d):
        c = [h for h in self.helpers if h.rty == ty]
        if not c:
            return lit(3) if ty == N else ('bool', True)
        h = self.r.choice(c)
        return self.mkcall(h, d)

    def mkcall(self, h, d):
        args = []
        for p, t in zip(h.fn.params, h.ptys):
            if p.mut:
                v = self.pick(t, mut=True)
                if v is None:
                    return lit(3) if h.rty == N else ('bool', True) if h.rty == B else emit(lit(0))
                args.append(('mut', item(v.name)))
            else:
                args.append(self.expr(t, d + 1))
        return call(h.fn.name, *args)

    # -- closures
    def closure(self, ty, lvl=1):
        r = self.r
        ps = []
        saved, sl, sr, sc = self.vars, self.loops, self.returns, self.cur_decls
        outer = list(self.visible())
        self.vars = []
        for t in ty[1]:
            self.n += 1
            ps.append(('p%d' % self.n, tytext(t)))
            self.add(ps[-1][0], t, mut=False)
        nums = [v for v in outer if v.ty == N]

        def num_(d):
            x = r.random()
            if x < .35 and nums:
                g = item(r.choice(nums).name)
                if r.random() < .3:
                    g = ('bin', r.choice('+*'), g, lit(r.randint(1, 3)))
                return ('grab', 1, g)
            if d > 1 or x < .6:
                p = self.pick(N)
                return item(p.name) if p and r.random() < .7 else lit(r.randint(0, 5))
            if x < .9:
                return ('bin', r.choice('+-*'), num_(d + 1), num_(d + 1))
            return call('tn', self.id(), num_(d + 1))
        self.loops = []
        if isinstance(ty[2], tuple) and ty[2][0] == 'c':
            # A closure in a closure: grabs of the inner one see the parameters.
            inner_ps = [('p%d' % (self.n + 1 + j), tytext(t)) for j, t in enumerate(ty[2][1])]
            self.n += len(inner_ps)
            own = [p[0] for p in ps]
            e = item(inner_ps[0][0]) if inner_ps else lit(1)
            e = ('bin', '+', e, ('grab', 1, item(r.choice(own))) if own else lit(2))
            if nums and r.random() < .7:
                e = ('bin', '*', e, ('grab', 2, item(r.choice(nums).name)))
            body = ('clo', inner_ps, [], e)
        elif r.random() < .3:
            nm = 'w%d' % (self.n + 1)
            self.n += 1
            body = ('block', [decl(nm, num_(0)), ('bin', '+', item(nm), num_(1))])
        elif ty[2] == B:
            body = ('cmp', r.choice(('<', '>=')), num_(0), num_(1))
        else:
            body = num_(0)
            if body[0] == 'item':
                body = ('bin', '+', body, lit(0))
        self.vars, self.loops, self.returns, self.cur_decls = saved, sl, sr, sc
        return ('clo', ps, [], body)

    def clox(self, ty, d):
        c = [v for v in self.visible() if isinstance(v.ty, tuple) and v.ty[0] == 'c' and v.ty[2] == ty]
        if not c:
            return lit(4)
        v = self.r.choice(c)
        return ('cloc', item(v.name), [self.expr(t, d + 1) for t in v.ty[1]])

    # -- statements
    def jump(self):
        if not self.loops:
            return None
        l, val = self.r.choice(self.loops)
        return (self.r.choice(('break', 'cont')), l)

    TYPES = (N, N, N, B, S, V, L, AN, AN, AAN, OB, OO)

    def ty(self):
        return self.r.choice(self.TYPES)

    def stmt(self):
        self.budget -= 1
        r = self.r
        w = self.w
        opts = []
        for k, x in w.items():
            if x <= 0:
                continue
            if self.budget < 2 and k in ('if_', 'forn', 'for_', 'loop', 'block', 'nest'):
                continue
            if self.depth > 3 and k in ('if_', 'forn', 'for_', 'loop', 'block', 'nest'):
                continue
            opts.append((x, k))
        for _ in range(6):
            k = self.choose([(x, k) for x, k in opts])
            s = getattr(self, 's_' + k.rstrip('_'))()
            if s is not None:
                return s
        return emit(lit(0))

    def stmts(self, n):
        r = []
        for _ in range(n):
            if self.budget <= 0:
                break
            s = self.stmt()
            r.append(s)
            if s[0] in ('break', 'cont', 'ret', 'retv'):
                break
        return r or [emit(self.id())]

    def s_decl(self):
        t = self.ty()
        e = self.expr(t, 0)
        nm = self.name()
        self.add(nm, t)
        return decl(nm, e)

    def s_set(self):
        r = self.r
        k = r.random()
        if k < .6:
            v = self.pick(N, mut=True)
            if not v:
                return None
            op = r.choice(('=', '=', '+=', '-=', '*=', '+=', '/=', '%=', '^='))
            if op in ('=',):
                return ('set', op, item(v.name), self.expr(N, 1, fresh=True))
            return ('set', op, item(v.name), self.expr(N, 1, fresh=True))
        t = r.choice((B, S, AN, OB, V, L, AAN))
        v = self.pick(t, mut=True)
        if not v:
            return None
        if t == S and r.random() < .5:
            return ('set', '+=', item(v.name), self.expr(S, 2, fresh=True))
        if t == L and r.random() < .5:
            return ('set', '+=', item(v.name), self.expr(r.choice((N, L)), 2, fresh=True))
        if t == V and r.random() < .5:
            return ('set', r.choice(('+=', '-=', '*=')), item(v.name), self.expr(r.choice((V, N)), 2, fresh=True))
        return ('set', '=', item(v.name), self.expr(t, 1, fresh=True))

    def s_emit(self):
        p = self.place(self.ty())
        if p and self.r.random() < .7:
            return emit(p[1])
        return emit(self.expr(self.ty(), 1))

    def s_probe(self):
        return call('probe', self.id())

    def s_if(self):
        r = self.r
        self.budget -= 2
        arms = [(self.expr(B, 1), self.scoped(lambda: self.stmts(r.randint(1, 2))))]
        while r.random() < .3 and self.budget > 2:
            self.budget -= 1
            arms.append((self.expr(B, 1), self.scoped(lambda: self.stmts(1))))
        els = self.scoped(lambda: self.stmts(1)) if r.random() < .5 else None
        return ('if', arms, els)

    def newlabel(self):
        if self.r.random() < .4:
            self.n += 1
            return 'l%d' % self.n
        return None

    def s_forn(self):
        r = self.r
        self.budget -= 2
        label = self.newlabel()
        vs, idx = self.header(0, 3)
        saved = self.loops
        # An unlabelled jump means this loop; labels of outer statement loops stay reachable.
        self.loops = [(None, False)] + [l for l in saved if l[0] is not None] + ([(label, False)] * 2 if label else [])

        def f():
            for v in vs:
                self.add(v[0], N, mut=False)
            b = self.stmts(r.randint(1, 3))
            if idx is not None:
                # The index use that gives the range must come first.
                b.insert(0, emit(idx))
            return b
        body = self.scoped(f)
        self.loops = saved
        return ('forn', 'for', label, vs, body)

    def s_for(self):
        r = self.r
        self.budget -= 2
        label = self.newlabel()
        self.n += 1
        i = 'k%d' % self.n
        saved = self.loops
        self.loops = [(None, False)] + [l for l in saved if l[0] is not None] + ([(label, False)] * 2 if label else [])
        step = r.choice((1, 1, 2))
        end = r.choice((0, 1, 2, 3, 4))

        def f():
            self.add(i, N, mut=False)
            cond = ('cmp', '<', item(i), lit(end))
            if r.random() < .3:
                cond = call('tb', self.id(), cond)
            st_ = ('set', '+=', item(i), lit(step) if r.random() < .6 else call('tn', self.id(), lit(step)))
            return cond, st_, self.stmts(r.randint(1, 2))
        cond, st_, body = self.scoped(f)
        self.loops = saved
        return ('for', label, decl(i, lit(0)), cond, st_, body)

    def s_loop(self):
        r = self.r
        self.budget -= 4
        label = self.newlabel()
        self.n += 1
        i = 'k%d' % self.n
        saved = self.loops
        self.loops = [(None, False)] + [l for l in saved if l[0] is not None] + ([(label, False)] * 2 if label else [])

        def f():
            self.add(i, N, mut=False)
            return [('set', '+=', item(i), lit(1)),
                    ('if', [(('cmp', '>', item(i), lit(r.choice((0, 1, 2, 3)))), [('break', label if r.random() < .5 else None)])], None)
                    ] + self.scoped(lambda: self.stmts(r.randint(1, 2)))
        body = self.scoped(f)
        self.loops = saved
        return ('if', [(('bool', True), [decl(i, lit(0)), ('loop', label, body)])], None)

    def guard(self, counters):
        """A condition over loop counters that holds now and then."""
        r = self.r
        e = item(counters[-1])
        for c in counters[:-1]:
            if r.random() < .6:
                e = ('bin', '+', e, item(c))
        k = r.random()
        if k < .4:
            return ('cmp', r.choice(('==', '>=', '!=')), e, lit(r.randint(0, 3)))
        return ('cmp', '==', ('bin', '%', e, lit(r.choice((2, 2, 3)))), lit(r.randint(0, 1)))

    def s_nest(self):
        """Nested statement loops of mixed forms with jumps to any of them."""
        r = self.r
        if self.budget < 4 or self.depth > 2:
            return None
        saved = self.loops
        depth = r.choice((2, 2, 3))
        labels = [l for l in saved if l[0] is not None]

        def level(k, counters, labels):
            self.n += 1
            i = 'k%d' % self.n
            label = None
            if r.random() < .75:
                self.n += 1
                label = 'l%d' % self.n
            form = r.choice(('forn', 'for', 'loop', 'for'))
            labels = labels + ([(label, False)] * 2 if label else [])
            self.loops = [(None, False)] + labels

            def f():
                self.add(i, N, mut=False)
                cs = counters + [i]
                pre = []
                if form == 'loop':
                    pre = [('set', '+=', item(i), lit(1)),
                           ('if', [(('cmp', '>', item(i), lit(r.choice((1, 2, 3)))), [('break', label if r.random() < .5 else None)])], None)]

                def filler():
                    out = []
                    for _ in range(r.choice((0, 1, 1, 2))):
                        x = r.random()
                        if x < .5:
                            out.append(call('emit_id', self.id(), item(r.choice(cs))))
                        elif x < .7:
                            nm = self.name()
                            e = ('bin', '+', item(r.choice(cs)), lit(1))
                            self.add(nm, N)
                            out.append(decl(nm, e))
                        elif x < .85:
                            out.append(('if', [(self.guard(cs), [call('emit_id', self.id(), item(i))])],
                                        [call('emit_id', self.id(), item(i))] if r.random() < .5 else None))
                        else:
                            out.append(('if', [(self.guard(cs), [self.jump()])], None))
                    return out

                def g():
                    b = filler()
                    if k > 1:
                        inner = level(k - 1, cs, labels)
                        self.loops = [(None, False)] + labels
                        b.append(inner)
                        if r.random() < .3:
                            inner = level(k - 1, cs, labels)
                            self.loops = [(None, False)] + labels
                            b.append(inner)
                    else:
                        b.append(('if', [(self.guard(cs), [self.jump()])], None))
                        if self.returns is not None and r.random() < .15:
                            b.append(('if', [(self.guard(cs), [('ret', self.retval())])], None))
                    b += filler()
                    return b + [call('emit_id', self.id(), item(i))]
                return pre + self.scoped(g)
            body = self.scoped(f)
            if form == 'forn':
                a, b = self.bounds()
                return ('forn', 'for', label, [(i, a, lit(r.choice((2, 3, 3, 4))))], body)
            if form == 'for':
                return ('for', label, decl(i, lit(0)), ('cmp', '<', item(i), lit(r.choice((2, 3, 4)))),
                        ('set', '+=', item(i), lit(r.choice((1, 1, 2)))), body)
            return ('if', [(('bool', True), [decl(i, lit(0)), ('loop', label, body)])], None)
        self.budget -= 3
        s = level(depth, [], labels)
        self.loops = saved
        return s

    def s_block(self):
        self.budget -= 1
        b = self.scoped(lambda: self.stmts(self.r.randint(1, 3)))
        # A bare block is only accepted where no value is expected, and one that
        # starts with a label reads as an object.
        if self.returns is None and b[0][0] in ('call', 'decl', 'set', 'if'):
            return ('block', b)
        return ('if', [(('bool', True), b)], None)

    def s_jump(self):
        if not self.loops:
            return None
        return ('if', [(self.expr(B, 1), [self.jump()])], None)

    def retval(self):
        t = self.returns
        if t == 'any':
            t = self.r.choice((N, N, B, S, AN))
        return self.expr(t, 1, fresh=True)

    def s_ret(self):
        if self.returns is None:
            if self.r.random() < .5:
                return None
            return ('if', [(self.expr(B, 1), [('retv',)])], None)
        return ('if', [(self.expr(B, 1), [('ret', self.retval())])], None)

    def s_retset(self):
        if self.returns is None:
            return None
        return ('set', '=', ('item', 'return', []), self.retval())

    def s_path(self):
        """Assignment to an element or property."""
        r = self.r
        t = r.choice((N, N, N, AN, OB))
        c = [x for x in self.places(t, mut=True) if x[1]]
        if not c:
            return None
        v, it = self.collapse(*r.choice(c))
        if t == N and r.random() < .4:
            return ('set', r.choice(('+=', '-=', '*=')), it, self.expr(N, 1, fresh=True))
        return ('set', '=', it, self.expr(t, 2, fresh=True))

    def s_coll(self):
        r = self.r
        t = r.choice((AN, AN, AAN))
        v = self.pick(t, mut=True)
        if not v:
            return None
        x = r.random()
        m = ('mut', item(v.name))
        if x < .5:
            return call('push', m, self.expr(t[1], 1, fresh=True))
        if x < .65:
            return call('insert', m, lit(0), self.expr(t[1], 1, fresh=True))
        if x < .75:
            nm = self.name()
            self.add(nm, t[1])
            return decl(nm, call('pop', m))
        if x < .85:
            return call('reverse', m)
        nm = self.name()
        self.add(nm, t[1])
        return decl(nm, call('remove', m, lit(0)))

    COLL = (AN, AN, AAN, AAN, OB, OO, AOB)

    def elem(self, t, d=1):
        """An element that may be a reference to a variable."""
        v = self.pick(t)
        if v and self.r.random() < .6:
            return item(v.name)
        return self.expr(t, d + 1)

    def s_copy(self):
        """A new variable made from existing ones in one of the ways of copying."""
        r = self.r
        t = r.choice(self.COLL)
        x = r.random()
        v = self.pick(t)
        if v and x < .3:
            e = item(v.name)
        elif v and x < .4:
            e = call('clone', item(v.name))
        elif x < .7 and t[0] == 'a':
            e = ('arr', [self.elem(t[1]) for _ in range(max(1, r.choice(self.alen)))])
        elif x < .7:
            e = ('obj', [(k, self.elem(kt)) for k, kt in t[1]])
        elif x < .8 and t[0] == 'a':
            e = ('fill', self.elem(t[1]), lit(r.choice(self.alen)))
        else:
            p = self.place(t, nested=True) or self.place(t)
            e = p[1] if p else self.expr(t, 1)
        nm = self.name()
        self.add(nm, t)
        return decl(nm, e)

    def s_setvar(self):
        """x = y, y being the older variable."""
        t = self.r.choice(self.COLL + (N,))
        c = [(x, y) for x in self.visible() for y in self.visible()
             if x.ty == y.ty == t and y.order < x.order and x.mut and not x.param]
        if not c:
            return None
        x, y = self.r.choice(c)
        return ('set', '=', item(x.name), item(y.name))

    def s_setelem(self):
        """x.path = y, y being older than x."""
        t = self.r.choice((AN, OB, N, AN))
        c = []
        for x, ids in self.places(t, mut=True):
            if ids and not x.param:
                c += [(x, ids, y) for y in self.visible() if y.ty == t and y.order < x.order]
        if not c:
            return None
        x, ids, y = self.r.choice(c)
        return ('set', '=', item(x.name, *ids), item(y.name))

    def s_refpush(self):
        r = self.r
        t = r.choice((AAN, AOB, AAN, AN))
        c = [(x, y) for x in self.visible() for y in self.visible()
             if x.ty == t and y.ty == t[1] and y.order < x.order and x.mut and not x.param]
        if not c:
            return None
        x, y = r.choice(c)
        if r.random() < .7:
            return call('push_ref', ('mut', item(x.name)), item(y.name))
        return call('insert_ref', ('mut', item(x.name)), lit(0), item(y.name))

    def s_newkey(self):
        v = self.pick(self.r.choice((OB, OO)), mut=True)
        if not v:
            return None
        k = self.r.choice(('z', 'zz', 'p', 'm'))
        i = ('.', k, None) if self.r.random() < .6 else ('[', ('str', k), None)
        return ('decl', item(v.name, i), self.expr(N, 1, fresh=True))

    def s_dump(self):
        vs = [v for v in self.visible() if v.ty[0] in 'aon']
        return emit(('arr', [item(v.name) for v in vs[:7]])) if vs else None

    def s_mutcall(self):
        c = [h for h in self.helpers if any(p.mut for p in h.fn.params)]
        if not c:
            return None
        h = self.r.choice(c)
        e = self.mkcall(h, 1)
        if e[0] != 'call' or e[1] != h.fn.name:
            return None
        if h.rty is None:
            return e
        nm = self.name()
        self.add(nm, h.rty)
        return decl(nm, e)

    def s_clo(self):
        r = self.r
        t = r.choice((('c', (N,), N), ('c', (N,), N), ('c', (), N), ('c', (N, N), N), ('c', (N,), B), ('c', (N,), ('c', (N,), N))))
        e = self.closure(t)
        self.n += 1
        nm = 'c%d' % self.n
        self.add(nm, t, mut=False)
        return decl(nm, e)

    def s_fault(self):
        """Something that fails on some inputs."""
        r = self.r
        x = r.random()
        c = self.expr(B, 1)
        if x < .6:
            return ('if', [(c, [call('fail', ('str', 'boom%d' % self.ids))])], None)
        a = self.place(AN)
        if a and x < .8:
            v, it = a
            return ('if', [(c, [emit(('item', it[1], it[2] + [('[', lit(50), None)]))])], None)
        return ('if', [(c, [emit(call('unwrap', call('blur', call('none'))))])], None)

    # -- functions
    def function(self, name, ptys, rty, nst, muts=(), tytexts=True):
        r = self.r
        saved = (self.vars, self.loops, self.returns, self.depth)
        self.vars, self.loops, self.returns, self.depth = [], [], rty, 0
        ps = []
        for j, t in enumerate(ptys):
            self.n += 1
            nm = 'a%d' % self.n
            m = j in muts
            ps.append(Param(nm, tytext(t) if tytexts and r.random() < .8 else None, mut=m))
            self.add(nm, t, mut=m, param=True)
        body = self.stmts(nst)
        if body[-1][0] in ('ret', 'retv', 'break', 'cont'):
            body.pop()
        if name == 'f0' or r.random() < .2:
            vs = [v for v in self.visible() if v.ty[0] != 'c']
            r.shuffle(vs)
            body += [emit(item(v.name)) for v in vs[:self.dump]]
        if rty is not None:
            x = r.random()
            if x < .15 and self.w.get('retset'):
                body.insert(0, ('set', '=', ('item', 'return', []), self.retval_plain()))
            elif x < .6 or not has_return(body):
                body.append(('ret', self.retval()))
            else:
                body.append(self.retval())
        f = Fn(name, ps, body, rty is not None, tytext(rty) if rty not in (None, 'any') and r.random() < .8 else None)
        self.vars, self.loops, self.returns, self.depth = saved
        self.fns.append(f)
        return f

    def retval_plain(self):
        t = N if self.returns == 'any' else self.returns
        return {N: lit(self.r.randint(0, 9)), B: ('bool', True), S: ('str', 'z')}.get(t) or \
            (('arr', [lit(1)]) if t == AN else self.expr(t, 9, fresh=True))

    def helper(self, sig=None):
        r = self.r
        self.n += 1
        ptys, rty, muts = sig or r.choice((((N,), N, ()), ((N, N), N, ()), ((N,), B, ()), ((AN,), N, ()), ((AN, N), None, (0,)),
                                           ((N,), None, (0,)), ((OB, N), None, (0,)), ((AN,), N, (0,)), ((N, N), B, ())))
        b = self.budget
        self.budget = 5
        f = self.function('h%d' % self.n, ptys, rty, r.randint(1, 3), muts)
        self.budget = b
        self.helpers.append(Helper(f, ptys, rty))

    def program(self, helpers=2, nst=8, nargs=2):
        for _ in range(self.r.randint(0, helpers)):
            self.helper()
        self.function('f0', (N,) * nargs, 'any', nst)
        return self.fns
