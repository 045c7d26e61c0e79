"""C04: loop forms and folds."""
from gen import *
from model import *
import math
from lang import print_program

PLAN = {'quick': (3600, 500, 300), 'thorough': (80000, 60000, 2400)}
RULE = ('Two kinds of programs: (a) one loop of every form and spelling (counting, packed up to three counters, explicit '
        'start, omitted range over arrays and nested arrays, vector and link forms, labels, break/continue) over host-given '
        'arrays with NaN, infinities, signed zeros and empty ranges; (b) random programs dominated by nested loops. '
        'Every visited index and every result is an observed event. Non-trivial: more than two events; distinct by trace.')

SPECIAL = [0.0, -0.0, 1.0, 2.0, 3.0, -1.0, -2.5, 0.5, 7.0, 1e300, -1e300, math.inf, -math.inf, math.nan, 1e-300, 3.0, 2.0]
KINDS = ['for', 'sum', 'prod', 'min', 'max', 'any', 'all', 'sift', 'link', 'sum_vec4', 'prod_vec4', '∑', '∏', '∃', '∀',
         '∑vec4', '∏vec4']


def values(rng, n=None):
    n = rng.choice((0, 0, 1, 2, 3, 4, 5, 8)) if n is None else n
    if rng.random() < .5:
        return ('a', tuple(num(rng.choice(SPECIAL)) for _ in range(n)))
    return ('a', tuple(num(rng.choice((0, 1, 2, 3, 4, -1, -2))) for _ in range(n)))


def fold(ctx, rng):
    kind = rng.choice(KINDS)
    base = {'∑': 'sum', '∏': 'prod', '∃': 'any', '∀': 'all', '∑vec4': 'sum_vec4', '∏vec4': 'prod_vec4'}.get(kind, kind)
    label = 'L' if rng.random() < .4 else None
    shape = rng.choice(('one', 'one', 'infer', 'infer', 'packed', 'packed3', 'nested', 'inferk'))
    body = []
    if shape == 'one':
        a = rng.choice((None, lit(0), lit(1), lit(2), lit(-1), lit(0.5), lit(-0.5), item('s')))
        e = rng.choice((lit(0), lit(1), lit(3), lit(2.5), lit(-1), item('e'), ('bin', '+', item('s'), item('e'))))
        vs = [('i', a, e)]
        idx = item('i')
    elif shape == 'infer':
        vs = [('i', None, ('infer', item('xs')))]
        idx = item('xs', ('[', item('i'), None))
    elif shape == 'inferk':
        # Range inferred for the second counter of a packed loop only.
        vs = [('i', rng.choice((None, lit(1))), lit(rng.randint(0, 3))), ('j', None, ('infer', item('xs')))]
        idx = item('xs', ('[', item('j'), None))
    elif shape == 'packed':
        vs = [('i', None, lit(rng.randint(0, 3))), ('j', rng.choice((None, lit(1), item('i'))), lit(rng.randint(0, 4)))]
        idx = ('bin', '+', ('bin', '*', item('i'), lit(10)), item('j'))
    elif shape == 'packed3':
        vs = [('i', None, lit(rng.randint(0, 3))), ('j', None, ('bin', '+', item('i'), lit(1))), ('k', lit(1), lit(rng.randint(1, 3)))]
        idx = ('bin', '+', ('bin', '+', ('bin', '*', item('i'), lit(100)), ('bin', '*', item('j'), lit(10))), item('k'))
    else:
        vs = [('i', None, ('infer', item('ys'))), ('j', None, ('infer', item('ys', ('[', item('i'), None))))]
        idx = item('ys', ('[', item('i'), None), ('[', item('j'), None))
    deepest = item(vs[-1][0])
    if base != 'link':
        # The use of the index that gives the range has to be the first one.
        if shape in ('infer', 'nested', 'inferk') or rng.random() < .7:
            body.append(emit(idx))
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            c = rng.choice((('cmp', rng.choice(('>', '<', '==')), deepest, lit(rng.randint(0, 3))),
                            ('cmp', rng.choice(('>', '<', '==')), idx, item('e')),
                            ('cmp', '>', idx, lit(2))))
            j = (rng.choice(('break', 'cont', 'cont')), rng.choice((None, label)))
            body.append(('if', [(c, [j])], None))
    x = rng.random()
    val = call('clone', idx) if x < .3 else ('bin', rng.choice('+-*'), idx, rng.choice((lit(1), lit(2), item('e'), deepest))) \
        if x < .8 else call('tn', lit(1), idx)
    if base in ('any', 'all'):
        val = ('cmp', rng.choice(('<', '>', '==', '!=', '>=', '<=')), idx, rng.choice((lit(1), lit(2), lit(3), item('e'))))
        if rng.random() < .3:
            val = call('tb', lit(2), val)
    elif base in ('sum_vec4', 'prod_vec4'):
        val = ('vec', [val, deepest, lit(1)][:rng.randint(2, 3)])
    elif base == 'sift' and len(vs) == 1 and rng.random() < .3:
        val = rng.choice((('arr', [val]), ('cmp', '<', idx, lit(2)), call('str', idx)))
    elif base == 'link':
        body = [call('clone', idx)] if shape in ('infer', 'nested', 'inferk') else []
        body += [val] + ([call('str', deepest)] if rng.random() < .4 else [])
        if rng.random() < .3:
            body.insert(rng.randrange(len(body) + 1),
                        call('tn', lit(9), deepest))
        if rng.random() < .5:
            # A jump, before anything of this round is in the link.
            for _ in range(rng.choice((1, 1, 2))):
                at = idx if shape in ('infer', 'nested', 'inferk') else rng.choice((idx, deepest))
                c = ('cmp', rng.choice(('>', '<', '==')), at, rng.choice((lit(rng.randint(0, 3)), item('e'))))
                body.insert(0, ('if', [(c, [(rng.choice(('break', 'cont')), rng.choice((None, label)))])],
                                rng.choice((None, [call('tn', lit(8), deepest)]))))
            # What is put in before a later jump stays: keep values out of all but the last.
            n = sum(b[0] == 'if' for b in body)
            body = [('if', b[1], None) if b[0] == 'if' and k < n - 1 else b for k, b in enumerate(body)]
    if base == 'for':
        val = None
    if val is not None and base != 'link':
        body.append(val)
    loop = ('forn', kind, label, vs, body)
    ps = [Param('xs', '[f64]'), Param('ys', '[[f64]]'), Param('s', 'f64'), Param('e', 'f64')]
    if base == 'for':
        st_ = [loop]
        fin = lit(1)
    else:
        st_ = [decl('r', loop), emit(item('r'))]
        if base in ('min', 'max'):
            st_ = [decl('r', loop), emit(item('r'))]
        fin = call('clone', item('r'))
    st_ += [call('probe', lit(1)), ('ret', fin)]
    fns = [Fn('f0', ps, st_, True, None)]
    calls = []
    for _ in range(8):
        ys = ('a', tuple(values(rng) for _ in range(rng.randint(0, 3))))
        calls.append(('f0', [values(rng), ys, num(rng.choice((0, 1, 2, -1, 0.5))), num(rng.choice((0, 1, 2, 3, 4, 2.5, -1)))]))
    ctx.kind('loop form', base + '/' + shape)
    return fns, calls


def condloop(ctx, rng):
    """for and loop with traced parts."""
    tr = lambda k, e: call('tb' if e[0] == 'cmp' else 'tn', lit(k), e)
    lab = rng.choice((None, 'L'))
    body = [emit(item('k'))]
    for _ in range(rng.randint(0, 2)):
        body.append(('if', [(('cmp', rng.choice(('>', '==', '<')), item('k'), item(rng.choice(('a', 'b')))),
                             [(rng.choice(('break', 'cont')), rng.choice((None, lab)))] if rng.random() < .8 else
                             [('ret', ('bin', '+', item('k'), lit(100)))])], None))
    body.append(emit(('bin', '*', item('k'), lit(2))))
    if rng.random() < .4:
        body.insert(rng.randrange(len(body) + 1), ('forn', 'for', None, [('q', None, lit(2))],
                    [('if', [(('cmp', '==', item('k'), item('b')), [(rng.choice(('break', 'cont')), rng.choice((None, lab)))])], None), emit(item('q'))]))
    step = rng.choice((('set', '+=', item('k'), tr(3, lit(1))), ('set', '+=', item('k'), lit(1)), ('set', '=', item('k'), tr(4, ('bin', '+', item('k'), lit(1))))))
    cond = rng.choice((('cmp', '<', item('k'), item('a')), tr(2, ('cmp', '<', item('k'), item('a'))), ('and', ('cmp', '<', item('k'), item('a')), tr(5, ('cmp', '!=', item('k'), item('b'))))))
    init = decl('k', rng.choice((lit(0), tr(1, lit(0)), tr(1, item('b')))))
    if rng.random() < .6:
        st_ = [('for', lab, init, cond, step, body)]
    else:
        b2 = [('if', [(('not', cond), [('break', rng.choice((None, lab)))])], None), step] + body
        st_ = [init, ('loop', lab, b2), emit(item('k'))]
    st_ += [call('probe', lit(1)), ('ret', lit(7))]
    fns = [Fn('f0', [Param('a', 'f64'), Param('b', 'f64')], st_, True, None)]
    ctx.kind('loop form', 'condition/endless')
    return fns, [('f0', [num(rng.choice((0, 1, 2, 3, 4))), num(rng.choice((-1, 0, 1, 2, 3)))]) for _ in range(8)]


def vecloop(ctx, rng):
    k = rng.choice((2, 3, 4))
    e = rng.choice((call('tn', lit(1), item('i')), ('bin', '+', ('bin', '*', item('i'), item('a')), item('b')),
                    ('bin', '-', item('b'), item('i')), ('item', 'xs', [('[', item('i'), None)])))
    st_ = [decl('xs', ('arr', [lit(rng.randint(-3, 9)) for _ in range(4)])),
           decl('v', ('vecn', k, 'i', e)), emit(item('v')), ('ret', call('clone', item('v')))]
    ctx.kind('loop form', 'vec%d' % k)
    return [Fn('f0', [Param('a', 'f64'), Param('b', 'f64')], st_, True, None)], [('f0', a) for a in arg_sets(rng, 2, 4)]


HELP = [Fn('fst', [Param('a', '[f64]'), Param('k', 'f64')], [('ret', call('clone', item('a', ('[', item('k'), None))))], True, 'f64'),
        Fn('cnt', [Param('x', 'f64')], [('ret', ('if', [(('cmp', '>', item('x'), lit(1)), [lit(2)])], [lit(1)]))], True, 'f64'),
        Fn('getp', [Param('o', '{}')], [('ret', call('clone', item('o', ('.', 'p', None))))], True, 'f64'),
        Fn('subt', [Param('x', 'f64'), Param('y', 'f64')], [('ret', ('bin', '-', item('x'), item('y')))], True, 'f64'),
        Fn('lk', [Param('l', 'link')], [call('emit_id', lit(41), item('l')), ('ret', lit(4))], True, 'f64'),
        Fn('mm', [Param('m', 'mat4')], [call('emit_id', lit(42), item('m')), ('ret', lit(5))], True, 'f64'),
        Fn('twice', [Param('x', 'f64')], [('ret', ('bin', '*', item('x'), lit(2)))], True, 'f64')]
PUT = ['left', 'right', 'neg', 'call', 'arg0', 'arg1', 'array', 'fill', 'fill-n', 'object', 'vec', 'swizzle', 'mat4', 'cond', 'cond2', 'then', 'elseif',
       'elseif-block', 'else', 'body', 'end', 'start', 'second', 'any', 'all', 'sift', 'linkfor', 'link', 'closure', 'try', '?', 'or-else', 'and',
       'not', 'index', 'go', 'vecloop', 'sumvec']


def nesting(t):
    d = m = 0
    for c in t:
        d += c in '([{'
        d -= c in ')]}'
        m = max(m, d)
    return m


class Put:
    """Puts a number into every kind of expression."""

    def __init__(self, rng):
        self.r, self.n = rng, 0

    def nm(self):
        self.n += 1
        return 'q%d' % self.n

    def put(self, how, h):
        r, j = self.r, self.nm()
        c = ('cmp', r.choice(('<', '>')), item('e'), lit(2))
        ch = ('cmp', r.choice(('<', '>', '==')), h, lit(r.randint(0, 3)))
        num_ = lambda b: ('if', [(b, [lit(3)])], [lit(4)])
        kind = r.choice(('sum', 'prod', 'min', 'max'))
        n = lambda: lit(r.randint(1, 3))
        return {
            'left': lambda: ('bin', r.choice('+-*'), h, lit(2)), 'right': lambda: ('bin', r.choice('+-*'), item('e'), h), 'neg': lambda: ('neg', h),
            'call': lambda: call('tn', lit(30), h), 'arg0': lambda: call('subt', h, item('e')), 'arg1': lambda: call('subt', item('e'), h),
            'array': lambda: call('fst', ('arr', [item('e'), h]), lit(r.randint(0, 1))), 'fill': lambda: call('fst', ('fill', h, lit(2)), lit(1)),
            'fill-n': lambda: call('fst', ('fill', item('e'), call('cnt', h)), lit(0)), 'object': lambda: call('getp', ('obj', [('o', item('e')), ('p', h)])),
            'vec': lambda: ('bin', '*.', ('vec', [item('e'), h]), ('vec', [lit(1), lit(2)])),
            'swizzle': lambda: ('bin', '*.', ('vec', [('swz', 'yx', ('vec', [h, item('e')])), lit(1)]), ('vec', [lit(1), lit(2), lit(3)])),
            'mat4': lambda: call('mm', ('mat', [[h if (a, b) == (1, 2) else lit(a) for b in range(4)] for a in range(4)])),
            'cond': lambda: num_(ch), 'cond2': lambda: num_(('cmp', '<', item('e'), h)),
            'then': lambda: ('if', [(c, [h])], [lit(1)]), 'elseif': lambda: ('if', [(c, [lit(1)]), (ch, [lit(2)])], [lit(3)]),
            'elseif-block': lambda: ('if', [(c, [lit(1)]), (('cmp', '<', item('e'), lit(9)), [h])], [lit(3)]),
            'else': lambda: ('if', [(c, [lit(1)])], [h]), 'body': lambda: ('forn', kind, None, [(j, None, n())], [h]),
            'end': lambda: ('forn', kind, None, [(j, None, call('cnt', h))], [('bin', '+', item(j), lit(1))]),
            'start': lambda: ('forn', kind, None, [(j, call('cnt', h), lit(4))], [('bin', '+', item(j), lit(1))]),
            'second': lambda: ('forn', kind, None, [(j, None, n()), (j + 'b', None, call('cnt', h))], [('bin', '+', item(j), item(j + 'b'))]),
            'any': lambda: num_(('forn', 'any', None, [(j, None, n())], [('cmp', '<', call('subt', h, item(j)), lit(2))])),
            'all': lambda: num_(('forn', 'all', None, [(j, None, n())], [('cmp', '<', call('subt', h, item(j)), lit(2))])),
            'sift': lambda: call('fst', ('forn', 'sift', None, [(j, None, n())], [('bin', '+', h, item(j))]), lit(0)),
            'linkfor': lambda: call('lk', ('forn', 'link', None, [(j, None, n())], [call('subt', h, item(j))])),
            'link': lambda: call('lk', ('link', [('str', 'a'), call('subt', h, lit(1))])),
            'closure': lambda: ('cloc', item('cl'), [h]), 'try': lambda: call('unwrap', ('try', h)), '?': lambda: ('?', call('some', h)),
            'or-else': lambda: call('unwrap_or', call('some', h), lit(7)), 'and': lambda: num_(('and', ('cmp', '<', item('e'), lit(2)), ch)),
            'not': lambda: num_(('not', ch)), 'index': lambda: item('zs', ('[', call('cnt', h), None)),
            'go': lambda: call('unwrap', call('join', ('go', 'twice', [h]))),
            'vecloop': lambda: ('bin', '*.', ('vecn', 3, j, ('bin', '+', h, item(j))), ('vec', [lit(1), lit(2)])),
            'sumvec': lambda: ('bin', '*.', ('forn', 'sum_vec4', None, [(j, None, n())], [('vec', [h, item(j)])]), ('vec', [lit(1), lit(2)])),
        }[how]()


def deepx(ctx, rng):
    """Omitted ranges and unrolled vector loops whose counter is used anywhere in an expression."""
    p = Put(rng)
    un = rng.random() < .35
    at = item('i') if un else rng.choice((item('xs', ('[', item('i'), None)), item('ys', ('[', lit(0), None), ('[', item('i'), None)),
                                          item('o', ('.', 'w', None), ('[', item('i'), None))))
    outer = not un and rng.random() < .3
    if outer:
        at = item('ys', ('[', item('w'), None), ('[', item('i'), None))
    h = ('bin', '+', item('i'), lit(1)) if un and rng.random() < .3 else at
    hows = [rng.choice(PUT) for _ in range(rng.choice((1, 1, 2)))]
    for how in hows:
        h = p.put(how, h)
        ctx.kind('counter used in', how)
    if rng.random() < .35:
        # An inner loop with a counter of the same name says nothing about the outer one.
        k = rng.choice(('sum', 'prod', 'min', 'max', 'sumvec', 'sift', 'vecn', 'any', 'link', 'second'))
        ctx.kind('counter shadowed by', k)
        c = 'w' if outer and rng.random() < .7 else 'i'
        use, one = item('zs', ('[', item(c), None)), [(c, rng.choice((None, None, lit(1))), lit(rng.randint(2, 3)))]
        if k == 'second':
            sh = ('forn', 'sum', None, [('u', None, lit(2))] + one, [('bin', '+', use, item('u'))])
        elif k == 'sumvec':
            sh = ('bin', '*.', ('forn', 'sum_vec4', None, one, [('vec', [use, item(c)])]), ('vec', [lit(1), lit(2)]))
        elif k == 'sift':
            sh = call('fst', ('forn', 'sift', None, one, [call('subt', use, item(c))]), lit(0))
        elif k == 'vecn':
            sh = ('bin', '*.', ('vecn', 3, c, use), ('vec', [lit(1), lit(2)]))
        elif k == 'any':
            sh = ('if', [(('forn', 'any', None, one, [('cmp', '>', use, lit(6))]), [lit(3)])], [lit(4)])
        elif k == 'link':
            sh = call('lk', ('forn', 'link', None, one, [call('subt', use, lit(1))]))
        else:
            sh = ('forn', k, None, one, [call('subt', use, item(c))])
        h = call('subt', sh, h) if rng.random() < .6 else call('subt', h, sh)
    pre = [decl('o', ('obj', [('w', ('arr', [lit(k) for k in range(rng.randint(0, 3))]))])), decl('zs', ('arr', [lit(5), lit(6), lit(7)])),
           decl('cl', ('clo', [('x', 'f64')], [], ('bin', '+', item('x'), lit(3))))]
    if un:
        st_ = pre + [decl('v', ('vecn', rng.choice((2, 3, 4)), 'i', h)), emit(item('v'))]
    else:
        arr = ('item', at[1], at[2][:-1])
        kind = rng.choice(('sum', 'min', 'sift', 'for', 'prod', 'max'))
        x, z, body = rng.random(), 'z1', []
        if x < .4:
            body = [emit(h)] if kind == 'for' else [h]
        elif x < .6:
            body = [decl(z, h), emit(item(z))] + ([] if kind == 'for' else [call('clone', item(z))])
        elif x < .8:
            body = [decl(z, lit(1)), ('set', rng.choice(('=', '+=', '*=')), item(z), h), emit(item(z))] + ([] if kind == 'for' else [call('clone', item(z))])
        elif x < .9:
            q = p.nm()
            k = rng.randrange(3)
            body = [('for', None, decl(q, call('cnt', h) if k == 0 else lit(0)), ('cmp', '<', item(q), call('cnt', h) if k == 1 else lit(3)),
                     ('set', '+=', item(q), call('cnt', h) if k == 2 else lit(1)), [emit(item(q))])] + ([] if kind == 'for' else [lit(1)])
        else:
            body = [('if', [(('cmp', '>', item('i'), lit(7)), [('ret', ('bin', '+', h, lit(0)))])], None)] + ([] if kind == 'for' else [lit(1)])
        loop = ('forn', kind, None, [('i', None, ('infer', arr))], body)
        ls = [loop] if kind == 'for' else [decl('r', loop), emit(item('r'))]
        st_ = pre + ([('forn', 'for', None, [('w', None, ('infer', item('ys')))], [call('probe', lit(2)), emit(item('ys', ('[', item('w'), None)))] + ls)] if outer else ls)
    st_ += [call('probe', lit(1)), ('ret', lit(7))]
    calls = []
    for _ in range(4):
        ys = ('a', tuple(values(rng) for _ in range(rng.randint(1, 3))))
        calls.append(('f0', [values(rng), ys, num(rng.choice((0, 1, 2, 3)))]))
    return HELP + [Fn('f0', [Param('xs', '[f64]'), Param('ys', '[[f64]]'), Param('e', 'f64')], st_, True, 'any')], calls


def case(ctx, rng, i):
    x = rng.random()
    if x < .2:
        fns, calls = deepx(ctx, rng)
    elif x < .6:
        fns, calls = fold(ctx, rng)
    elif x < .7:
        fns, calls = condloop(ctx, rng)
    elif x < .72:
        fns, calls = vecloop(ctx, rng)
    else:
        g = Gen(rng, dict(forn=6, for_=3, loop=2, jump=3, if_=1, block=.5, ret=.5, path=1, coll=1), budget=18,
                ew=dict(loopx=7, ifx=.5))
        fns = g.program(1)
        calls = [('f0', a) for a in arg_sets(rng, 2, 6)]
        ctx.kind('loop form', 'random program')
    if x < .2 and nesting(print_program(fns)[0]) > 6:
        # The parser takes time exponential in the nesting.
        ctx.cov['texts_too_deep'] += 1
        return
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    # A number with a witness is not accepted everywhere.
    run_program(ctx, fns, calls, exp, 'C04', must_load=(lambda m: 'sec[' not in m) if x < .2 else None)

TECHNIQUE = 'online trace monitor: events of generated programs compared with a reference interpreter'
NOTE = ('Observes real executions of generated programs through host functions and compares every event, result and error '
        'with an independent reference interpreter. Trusts that interpreter (lib/lang.py) and samples programs and inputs; '
        'programs the loader rejects give no verdict here.')
