"""C14: calls on new threads."""
from gen import *
from model import *
from lang import Fn, Param
from wire import enc

PLAN = {'quick': (2000, 200, 300), 'thorough': (60000, 6000, 2400)}
RULE = ('Programs whose main function starts calls of generated functions (numbers, arrays, objects, closures, links as arguments, mutable '
        'arguments, functions that fail, recurse, call closures and start further threads) on new threads, goes on changing its '
        'variables, and joins the handles in any order, twice, through copies, functions, arrays and objects. Threads and the '
        'main function pause at random. Every started call records its arguments under an identity of its own. Non-trivial: '
        'more than two events.')
TECHNIQUE = ('online trace monitor of the main function against a reference interpreter that runs the call on copies when it is started; '
             'offline checker that the calls recorded by the threads are exactly those started, each once, with those arguments')
NOTE = 'Thread schedules are those the operating system gives under injected delays. Samples programs and schedules.'

W = dict(decl=4, set=6, emit=2, if_=1, forn=1, for_=.3, loop=.3, block=.4, jump=.3, ret=0, path=4, coll=3, mutcall=2,
         go=6, join=4, share=1.2, pass_=1.5, arrgo=2, arrjoin=2, bad=.6, pair=2)
FC = ('c', (N,), N)


class G14(Gen):
    def __init__(self, rng, **k):
        super().__init__(rng, **k)
        self.handles, self.workers = [], []
        self.ident = 1000

    def worker(self):
        r = self.r
        x = r.random()
        sig = r.choice((((N,), N, ()), ((N, N), N, ()), ((AN,), AN, ()), ((AN, N), N, ()), ((OB,), OB, ()), ((N,), B, ()), ((L,), N, ()),
                        ((AAN,), N, ()), ((S,), S, ()), ((V,), V, ()), ((N,), AN, ()), ((AN,), N, (0,)), ((OB, N), N, (0,))))
        self.helper(sig)
        h = self.helpers.pop()
        self.workers.append(h)
        f = h.fn
        pre = []
        if r.random() < .5:
            pre.append(call('nap', lit(r.choice((1, 30, 120)))))
        self.ident += 1
        pre.append(call('emit_id', lit(self.ident), ('arr', [item(p.name) for p in f.params])))
        pre.append(call('gate_inc'))
        if x < .25 and ptype(f.params[0]) == 'f64' and not f.params[0].mut:
            pre.append(('if', [(('cmp', r.choice(('<', '>')), item(f.params[0].name), lit(r.randint(0, 3))),
                                [r.choice((decl('zz', call('unwrap', call('none'))),
                                           decl('zz', call('unwrap', call('err', ('str', 'gone'))))))])], None))
        f.body[:] = pre + quiet(self, f.body)
        return h

    def spawn(self):
        r = self.r
        hs = self.workers
        x = r.random()
        if x < .12:
            c = self.plain_closure()
            args, name = [c, self.expr(N, 2)], 'hc'
        elif x < .2:
            args, name = [self.expr(N, 2)], 'hn'
        else:
            h = r.choice(hs)
            name = h.fn.name
            args = []
            for p, t in zip(h.fn.params, h.ptys):
                if p.mut:
                    v = [v for v in self.visible() if v.ty == t and v.mut and not v.cur]
                    if not v:
                        return None
                    args.append(('mut', item(r.choice(v).name)))
                else:
                    args.append(self.expr(t, 2))
        return ('go', name, args)

    def plain_closure(self):
        v = [v for v in self.visible() if v.ty == N]
        e = ('grab', 1, item(self.r.choice(v).name)) if v else lit(2)
        return ('clo', [('q', 'f64')], [], ('bin', '+', ('bin', '*', item('q'), lit(2)), e))

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def started(self):
        return ('set', '+=', item('cnt'), lit(1))

    def s_go(self):
        if self.depth > 0 or self.loops:
            return self.s_pair()
        e = self.spawn()
        if e is None:
            return None
        t = self.fresh('t')
        self.handles.append(t)
        self.pending = [self.started()]
        return decl(t, e)

    def s_pair(self):
        e = self.spawn()
        if e is None:
            return None
        t, r = self.fresh('t'), self.r
        b = [decl(t, e), self.started(), emit(call('join', item(t)))]
        if r.random() < .2:
            b.append(emit(call('join', item(t))))
        return ('if', [(('bool', True), b)], None)

    def s_join(self):
        return emit(call('join', item(self.r.choice(self.handles)))) if self.handles else None

    def s_share(self):
        if not self.handles or self.depth or self.loops:
            return None
        t = self.fresh('t')
        x = item(self.r.choice(self.handles))
        self.handles.append(t)
        return decl(t, x)

    def s_pass(self):
        return emit(call(self.r.choice(('jn', 'jn2')), item(self.r.choice(self.handles)))) if self.handles else None

    def s_arrgo(self):
        e = self.spawn()
        if e is None:
            return None
        b = [call('push', ('mut', item('ts')), e), self.started()]
        if self.r.random() < .4 and self.handles:
            b = [call('push', ('mut', item('ts')), item(self.r.choice(self.handles)))]
        return ('if', [(('bool', True), b)], None)

    def s_arrjoin(self):
        t = self.fresh('t')
        x = self.r.random()
        b = [decl(t, call('unwrap', call('pop', ('mut', item('ts'))))), emit(call('join', item(t)))]
        if x < .15:
            b = [emit(call('join', item('ts', ('[', lit(0), None))))]
        elif x < .3:
            b = [decl(t, item('ts', ('[', lit(0), None))), emit(call('join', item(t)))]
        return ('if', [(('cmp', '>', call('len', item('ts')), lit(0)), b)], None)

    def s_bad(self):
        # Joining what is not a thread.
        v = [v for v in self.visible() if v.ty in (N, S, AN, OB)]
        if not v:
            return None
        v = self.r.choice(v)
        x = emit(call('jn', item(v.name)))
        return ('if', [(('bool', True), [x, emit(item(v.name))])], None)


def quiet(g, x):
    """The events of a thread come in no fixed order: none but those with an identity."""
    if isinstance(x, list):
        return [quiet(g, y) for y in x]
    if isinstance(x, tuple):
        if x[:2] in (('call', 'emit'), ('call', 'emit_id')):
            return decl(g.fresh('z'), call('typeof', quiet(g, x[2][-1])))
        if x[0] == 'call' and x[1] in ('tn', 'tb', 'ts', 'tv', 'ta'):
            return quiet(g, x[2][-1])
        return tuple(quiet(g, y) for y in x)
    return x


def ptype(p):
    return p.ty


def program(rng):
    g = G14(rng, weights=W, budget=22, ew=dict(trace=0, retx=0))
    g.TYPES = (N, N, N, B, S, V, L, AN, AN, AAN, OB)
    t = item('t')
    g.fns.append(Fn('jn', [Param('t', 'any')], [('ret', call('join', t))], True, 'any'))
    g.fns.append(Fn('jn2', [Param('t', 'any')], [decl('u', item('t')) if rng.random() < .5 else call('nap', lit(1)),
                                                   ('ret', call('jn', t))], True, 'any'))
    w = g.w
    g.w = dict(w, emit=0, go=0, join=0, share=0, pass_=0, arrgo=0, arrjoin=0, bad=0, pair=0)
    if rng.random() < .7:
        g.helper(rng.choice((((N,), N, ()), ((AN,), N, ()), ((AN, N), N, (0,)))))
        g.helpers[-1].fn.body[:] = quiet(g, g.helpers[-1].fn.body)
    for _ in range(rng.randint(2, 4)):
        g.worker()
    g.w = w
    x = item('x')
    g.fns.append(Fn('hc', [Param('f', '\\(f64) -> f64'), Param('x', 'f64')],
                    [call('nap', lit(rng.choice((1, 20)))), call('gate_inc'), ('ret', ('bin', '+', ('cloc', item('f'), [x]), ('cloc', item('f'), [lit(1)])))],
                    True, 'f64'))
    g.fns.append(Fn('hn', [Param('x', 'f64')],
                    [call('gate_inc'), ('if', [(('cmp', '<=', x, lit(0)), [('ret', lit(1))])], None),
                     decl('y', ('bin', '-', x, lit(1))), decl('t', ('go', 'hm', [item('y')])), ('set', '+=', item('y'), lit(5)),
                     ('ret', ('bin', '+', item('y'), call('unwrap', call('join', item('t')))))], True, 'f64'))
    g.fns.append(Fn('hm', [Param('x', 'f64')],
                    [call('nap', lit(5)), ('ret', ('bin', '*', x, lit(3)))], True, 'f64'))
    g.vars, g.loops, g.returns, g.depth, g.budget = [], [], None, 0, 26
    ps = []
    for k in range(2):
        ps.append(Param('a%d' % k, 'f64'))
        g.add('a%d' % k, N, mut=False, param=True)
    body = [decl('cnt', lit(0)), decl('ts', ('arr', []))]
    for nm, ty, e in (('n1', N, ('bin', '+', item('a0'), lit(1))), ('v1', AN, ('arr', [lit(3), item('a1'), lit(5)])), ('w1', OB, None),
                      ('k1', L, ('link', [lit(1), ('str', 'u')])), ('m1', AAN, ('arr', [('arr', [lit(1), lit(2)]), ('arr', [lit(3)])])),
                      ('s1', S, ('str', 'q')), ('y1', V, None)):
        if rng.random() < .8:
            body.append(decl(nm, e or g.expr(ty, 2, fresh=True)))
            g.add(nm, ty)
    for _ in range(rng.randint(6, 14)):
        g.pending = []
        body.append(g.stmt())
        body += g.pending
        if rng.random() < .08:
            body.append(call('nap', lit(rng.choice((1, 50)))))
    body.append(call('gate_wait', item('cnt')))
    for t in g.handles:
        if rng.random() < .6:
            body.append(emit(call('join', item(t))))
    g.fns.append(Fn('f0', ps, body))
    return g.fns


def case(ctx, rng, i):
    for _ in range(4):
        fns = program(rng)
        calls = [('f0', [num(rng.choice((0, 1, 2))), num(rng.choice((0, 1, 3, -1, .5)))])]
        exp = predict(fns, calls)
        if exp is not None and all(o.kind == 'ok' for o in exp):
            break
    else:
        ctx.cov['main_would_fail'] += 1
        return
    want = []
    for o in exp:
        want += [e for e in o.events if e[0] == 'E' and e[1][1] >= 1000]
        o.events = [e for e in o.events if not (e[0] == 'E' and e[1][1] >= 1000)]

    def threads(rep):
        got = [e for e in rep.events if e[0] == 'E' and e[1][1] >= 1000]
        rep.events = [e for e in rep.events if not (e[0] == 'E' and e[1][1] >= 1000)]
        left = list(got)
        for e in want:
            k = next((k for k, x in enumerate(left) if all(match_val(p, q, None) for p, q in zip(e[1:], x[1:]))), None)
            if k is None:
                return 'the started call that should record %s was not observed; recorded: %s' % (sh(e), '; '.join(map(sh, got))[:900])
            del left[k]
        if left:
            return 'a call ran that was not started, or ran twice: %s' % '; '.join(map(sh, left))[:900]
        ctx.cov['thread_calls_recorded'] += len(got)
        order = tuple(e[1][1] for e in got)
        ctx.cov['overtakings_seen'] += sum(a != b[1][1] for a, b in zip(order, want))
        return None
    run_program(ctx, fns, calls, exp, 'C14', on_report=threads)
