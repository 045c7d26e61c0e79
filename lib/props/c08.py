"""C08: lazy evaluation."""
from gen import *
from model import *

PLAN = {'quick': (2000, 500, 300), 'thorough': (100000, 60000, 2400)}
RULE = ('Programs with nested short-circuit and/or, unwrap-or and calls of functions whose arguments declare lazy invariants '
        '(booleans, numbers, strings, vectors, arrays, objects, ok(_), err(_), some(_), several alternatives, at first and later '
        'arguments), every operand traced, inside larger calls, literals and loops, with variables dumped afterwards; called with '
        'values that match and do not match. Non-trivial: more than two events.')
TECHNIQUE = 'online trace monitor: order and set of evaluated operands compared with a reference interpreter'
NOTE = ('Every operand is traced, so a skipped or extra evaluation, a wrong result or a disturbed variable is an observed '
        'difference. Samples programs and inputs.')

PATTERNS = {
    N: [[('lit', lit(0))], [('lit', lit(1)), ('lit', lit(2))], [('lit', lit(3))]],
    B: [[('lit', ('bool', False))], [('lit', ('bool', True))]],
    S: [[('lit', ('str', 'a'))], [('lit', ('str', '')), ('lit', ('str', 'bc'))]],
    V: [[('lit', ('vec', [lit(1), lit(2)]))], [('lit', ('vec', [lit(0), lit(0), lit(0), lit(0)]))]],
    AN: [[('lit', ('arr', []))], [('lit', ('arr', [lit(1), lit(2)]))]],
    ('o', (('p', N),)): [[('lit', ('obj', [('p', lit(1))]))], [('lit', ('obj', []))]],
    ('?', N): [[('some',)]],
    ('r', N): [[('ok',)], [('err',)], [('ok',), ('err',)]],
    'x': [[('ok',), ('some',)], [('lit', lit(0)), ('lit', ('bool', False)), ('lit', ('str', 'a'))], [('some',), ('err',)]],
}
TYS = list(PATTERNS)


def value(rng, t):
    """A host value of the type, often one that matches a pattern."""
    if t == N:
        return num(rng.choice((0, 1, 2, 3, 4, -0.0)))
    if t == B:
        return boolean(rng.random() < .5)
    if t == S:
        return st(rng.choice(('a', '', 'bc', 'zz')))
    if t == V:
        return ('v', rng.choice(((1.0, 2.0, 0.0, 0.0), (0.0, 0.0, 0.0, 0.0), (1.0, 2.0, 0.0, 1.0), (3.0, 1.0, 1.0, 1.0))))
    if t == AN:
        return ('a', tuple(num(x) for x in rng.choice(((), (1, 2), (1, 2, 3), (2, 1), (1,)))))
    if t == ('o', (('p', N),)):
        return ('o', rng.choice(({'p': num(1)}, {}, {'p': num(2)}, {'p': num(1), 'q': num(1)}, {'q': num(1)})))
    if t == ('?', N):
        return ('?', rng.choice((None, num(0), num(5))))
    if t == ('r', N):
        return rng.choice((('ok', num(1)), ('ok', num(6)), ('err', st('e'), ()), ('err', st('f'), ())))
    return value(rng, rng.choice([q for q in TYS if q != 'x']))


def case(ctx, rng, i):
    g = Gen(rng)
    fns = []
    n = [0]

    def tid():
        n[0] += 1
        return lit(n[0])

    def tr(e):
        return call('ta', tid(), e) if rng.random() < .8 else e

    def ttext(t):
        return 'any' if t == 'x' else tytext(t)
    hs = []
    for k in range(rng.randint(1, 2)):
        m = rng.randint(1, 3)
        tys = [rng.choice(TYS) for _ in range(m)]
        lz = [bool(rng.random() < .6) for _ in range(m)]
        if not any(lz):
            lz[rng.randrange(m)] = True
        ps = [Param('q%d' % j, ttext(t), lazy=rng.choice(PATTERNS[t]) if z else None) for j, (t, z) in enumerate(zip(tys, lz))]
        body = [emit(('arr', [lit(100 + k)] + [item(p.name) for p in ps]))]
        if hs and rng.random() < .3:
            body.append(emit(lit(200)))
        body.append(('ret', ('arr', [lit(7), call('clone', item('q0'))]) if rng.random() < .5 else lit(50 + k)))
        f = Fn('h%d' % k, ps, body, True, 'any')
        fns.append(f)
        hs.append((f, tys))
    # The entry gets values for every type.
    ps = [Param('x%d' % j, ttext(t)) for j, t in enumerate(TYS)]
    body = [decl('loc', ('bin', '+', item('x0'), lit(10)))]

    def var(t):
        return item('x%d' % TYS.index(t))

    def lazy_call(d=0):
        f, tys = rng.choice(hs)
        args = []
        for t in tys:
            e = var(t)
            if t == 'x' and rng.random() < .5:
                e = var(rng.choice(TYS))
            if t == 'x' and d < 2 and rng.random() < .3:
                e = lazy_call(d + 1)
            args.append(tr(e))
        return call(f.name, *args)

    def boolx(d):
        x = rng.random()
        if d > 2 or x < .3:
            e = rng.choice((('cmp', rng.choice(('<', '>', '==')), item('x0'), lit(rng.randint(0, 3))), item('x1'), ('bool', rng.random() < .5)))
            return call('tb', tid(), e) if rng.random() < .85 else e
        if x < .9:
            return (rng.choice(('and', 'or')), boolx(d + 1), boolx(d + 1))
        return ('not', boolx(d + 1))
    for _ in range(rng.randint(2, 5)):
        x = rng.random()
        if x < .3:
            body.append(emit(lazy_call()))
        elif x < .5:
            nm = 'r%d' % len(body)
            body += [decl(nm, lazy_call()), emit(item(nm))]
        elif x < .6:
            body.append(emit(('arr', [tr(item('x0')), lazy_call(), tr(item('loc')), lazy_call()])))
        elif x < .8:
            e = boolx(0)
            if rng.random() < .3:
                body.append(('if', [(e, [emit(lit(1))])], [emit(lit(2))]))
            else:
                body.append(emit(e))
        elif x < .9:
            o = rng.choice((('?', N), ('r', N)))
            body.append(emit(call('unwrap_or', tr(var(o)), tr(rng.choice((item('x0'), item('loc'), lit(9)))))))
        else:
            body.append(('forn', 'for', None, [('i', None, lit(2))], [emit(lazy_call()), emit(item('loc'))]))
        if rng.random() < .5:
            body.append(call('probe', tid()))
    body.append(emit(('arr', [item('loc'), item('x0'), item('x2')])))
    body.append(('ret', ('arr', [lazy_call()]) if rng.random() < .3 else lit(1)))
    fns.append(Fn('f0', ps, body, True, 'any'))
    calls = [('f0', [value(rng, t) for t in TYS]) for _ in range(8)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    for f, tys in hs:
        for p, t in zip(f.params, tys):
            if p.lazy:
                ctx.kind('patterns', ' | '.join(p.lazy_text(__import__('lang').Printer())))
    run_program(ctx, fns, calls, exp, 'C08', check_depth=True)
