"""C18: declared types."""
from wire import enc, show, num
from model import sh
import stdlib
import wrapping

PLAN = {'quick': (3000, 300, 300), 'thorough': (60000, 6000, 2400)}
RULE = ('Small programs in which a value of a random type V meets a declared type D (types composed at random of bool, f64, vec4, mat4, str, '
        'link, arrays, objects, options, results, secrets, threads, receivers, closures and ad-hoc types) at one of many positions '
        '(plain, named, mutable, spawned and aliased call arguments, returns of every form, inferred locals, branches, blocks, closures, '
        'grabbed values, loop bodies, unwrapped values), nested at random in statements and expressions; every operator on every pair of '
        'types; every argument of every library function; conditions, vector components, unused results, void values, missing '
        'returns; refined signatures; re-assignment at run time. Non-trivial: a verdict of the loader was compared; distinct by program.')
TECHNIQUE = ('loader verdict compared with an independently written compatibility relation and signature table; '
             'run-time types of the values of accepted programs observed inside the callee')
NOTE = 'Array literals and functions declared with `->` alone have unknown item and result types and are accepted anywhere.'

BASE = ('bool', 'f64', 'vec4', 'mat4', 'str', 'link', '{}')
KIND = {'bool': 'boolean', 'f64': 'number', 'vec4': 'vec4', 'mat4': 'mat4', 'str': 'string', 'link': 'link', '{}': 'object', '[]': 'array',
        'opt': 'option', 'res': 'result', 'thr': 'thread', 'in': 'in', 'clo': 'closure'}
LITV = ''
LIT = {'bool': 'true', 'f64': '2.5', 'vec4': '(1, 2, 3)', 'mat4': 'mat4 {1,0,0,0; 0,1,0,0; 0,0,1,0; 0,0,0,1}', 'str': '"a"', 'link': 'link { 1 "b" }',
       '{}': '{a: 1}'}
NAMES = ('Foo', 'Bar')


def rtype(r, depth=2, any_=True):
    x = r.random()
    if depth == 0 or x < .45:
        return (r.choice(BASE),)
    if x < .5 and any_:
        return ('any',)
    if x < .75:
        return (r.choice(('[]', '[]', 'opt', 'res', 'thr')), rtype(r, depth - 1))
    if x < .78:
        return ('in', ('any',))
    if x < .84:
        return ('sec', (r.choice(('bool', 'f64')),))
    if x < .92:
        return ('clo', [rtype(r, 0) for _ in range(r.randint(0, 2))], rtype(r, 0))
    return ('adhoc', r.choice(NAMES), (r.choice(BASE[:5]),))


def text(t):
    k = t[0]
    if k == 'adhoc':
        return '%s %s' % (t[1], text(t[2]))
    if k == 'clo':
        return '\\(%s) -> %s' % (', '.join(map(text, t[1])), text(t[2]))
    if k == '[]':
        return '[]' if t[1] == ('any',) else '[%s]' % text(t[1])
    if len(t) == 2:
        return k if t[1] == ('any',) else '%s[%s]' % (k, text(t[1]))
    return k


def parse(s):
    for k in ('opt', 'res', 'thr', 'in', 'sec'):
        if s == k:
            return (k, ('any',))
        if s.startswith(k + '['):
            return (k, parse(s[len(k) + 1:-1]))
    if s == '[]':
        return ('[]', ('any',))
    if s[0] == '[':
        return ('[]', parse(s[1:-1]))
    return (s,)


def fits(d, v):
    """Whether a value of type v can be used where d is declared."""
    if v[0] == 'void' or d[0] == 'void':
        return v[0] == d[0]
    if d[0] == 'any' or v[0] == 'any':
        return True
    if d[0] == 'adhoc' and v[0] == 'adhoc':
        return d[1] == v[1] and fits(d[2], v[2])
    if d[0] == 'adhoc':
        return fits(d[2], v)
    if v[0] == 'adhoc':
        return fits(d, v[2])
    if v[0] == 'sec':
        return fits(d[1] if d[0] == 'sec' else d, v[1])
    if d[0] != v[0]:
        return False
    if d[0] == 'clo':
        return len(d[1]) == len(v[1]) and all(map(fits, d[1], v[1])) and fits(d[2], v[2])
    return all(map(fits, d[1:], v[1:]))


def kind(t):
    """Name of the run-time type."""
    while t[0] in ('adhoc', 'sec'):
        t = t[-1]
    return KIND[t[0]]


class Values:
    """Functions that return a value of a type."""

    def __init__(self):
        self.out, self.n = [], 0

    def lit(self, t):
        k = t[0]
        if k == 'any':
            return 'blur(3)'
        if k == 'adhoc':
            return self.lit(t[2])
        if k == 'sec':
            return 'explain_why(true, 1)' if t[1][0] == 'bool' else 'explain_where(1, 1)'
        if k == '[]':
            return '[%s]' % self.lit(t[1])
        if k == 'opt':
            return 'some(%s)' % self.lit(t[1])
        if k == 'res':
            return 'ok(%s)' % self.lit(t[1])
        if k == 'thr':
            return 'go %s()' % self.fn(t[1])
        if k == 'in':
            if not any(o.startswith('fn tgt') for o in self.out):
                self.out.append('fn tgt(x: any) { }\n')
            return 'in tgt'
        if k == 'clo':
            a = ', '.join('p%d: %s' % (i, text(x)) for i, x in enumerate(t[1]))
            return '\\(%s) = %s' % (a, self.lit(t[2]))
        return LIT[k]

    def fn(self, t):
        self.n += 1
        n = 'mk%d' % self.n
        v = self.lit(t)
        self.out.append('fn %s() -> %s { return %s }\n' % (n, text(t), v))
        return n


def G(d, ret='', name='g', extra=''):
    b = '    emit(typeof(d))\n' + ('    return 1\n' if ret else '')
    return 'fn %s(%sd: %s)%s {\n%s}\n' % (name, extra, d, ret, b)


# Position -> program text.  MK is a function returning V; X is its call.
def p_call(r, D, V, X):
    return G(D) + wrap(r, 'g(%s)' % X)


def p_named(r, D, V, X):
    return G(D, name='g__d') + wrap(r, 'g(d: %s)' % X)


def p_second(r, D, V, X):
    return G(D, extra='e: f64, ') + wrap(r, 'g(1, %s)' % X)


def p_local(r, D, V, X):
    return G(D) + wrap(r, 'x := %s' % X, 'g(x)')


def p_arg(r, D, V, X):
    return G(D) + 'fn h(v: %s) { g(v) }\n' % V + wrap(r, 'h(%s)' % X)


def p_mut(r, D, V, X):
    return G(D, extra='mut ') + 'fn h(mut v: %s) { g(mut v) }\n' % V + wrap(r, 'x := %s' % X, 'h(mut x)')


def p_expr(r, D, V, X):
    return G(D, ' -> f64') + wrap(r, 'z := ' + nest(r, 'g(%s)' % X))


def p_return(r, D, V, X):
    k = r.randint(0, 3)
    b = ['    return %s\n' % X, '    if c {\n        return %s\n    }\n    return %s\n' % (X, X),
         '    loop {\n        return %s\n    }\n    return %s\n' % (X, X), '    return = %s\n' % X][k]
    return 'fn h(c: bool) -> %s {\n%s}\n' % (D, b) + wrap(r, 'q := h(%s)' % r.choice(('true', 'false')), 'emit(typeof(q))')


def p_math(r, D, V, X):
    return G(D) + 'h(x) = %s\n' % X + wrap(r, 'g(h(1))')


def p_if(r, D, V, X):
    return G(D) + wrap(r, 'g(if %s { %s } else { %s })' % (r.choice(('true', 'false')), X, X))


def p_block(r, D, V, X):
    return G(D) + wrap(r, 'x := {\n        y := 1\n        %s\n    }' % X, 'g(x)')


def p_go(r, D, V, X):
    return 'fn g(d: %s) -> str {\n    return typeof(d)\n}\n' % D + wrap(r, 't := go g(%s)' % X, 'emit(unwrap(join(thread: t)))')


def p_sift(r, D, V, X):
    return 'fn g(d: [%s]) {\n    emit(typeof(d[0]))\n}\n' % D + wrap(r, 'g(sift i 2 { %s })' % X)


def p_try(r, D, V, X):
    return (G(D) + 'fn o() -> %s[%s] { return %s(%s) }\n' % (('opt', V, 'some', X) if r.random() < .5 else ('res', V, 'ok', X))
            + 'fn h() -> opt {\n    g(o()?)\n    return none()\n}\n' + wrap(r, 'z := h()'))


def p_clo(r, D, V, X):
    return G(D) + wrap(r, 'h := \\() = %s' % X, 'g(\\h())')


def p_inclo(r, D, V, X):
    return G(D, ' -> f64') + wrap(r, 'h := \\() = %s' % nest(r, 'g(%s)' % X), 'z := \\h()')


def p_clopass(r, D, V, X):
    return 'fn g(f: \\() -> %s) {\n    d := \\f()\n    emit(typeof(d))\n}\n' % D + wrap(r, 'h := \\() = %s' % X, 'g(h)')


def p_grab(r, D, V, X):
    return G(D, ' -> f64') + wrap(r, 'x := %s' % X, 'h := \\() = g(grab x)', 'z := \\h()')


def p_assign(r, D, V, X):
    return G(D) + wrap(r, 'x := %s' % X, 'x = %s' % X, 'g(x)')


def p_import(r, D, V, X):
    x = r.randint(0, 3)
    head = ('', 'use nn as al\n', 'use nn::{g} as al\n', 'use nn::{g as gg} as al\n')[x]
    f = ('g', 'al::g', 'al::g', 'al::gg')[x]
    k = r.choice((0, 0, 1, 2))
    if k == 0:
        return ('ns nn\n' + G(D), head, wrap(r, '%s(%s)' % (f, X)))
    if k == 1:
        return ('ns nn\n' + G(D, ' -> f64'), head, wrap(r, 'z := ' + nest(r, '%s(%s)' % (f, X))))
    return ('ns nn\nfn g(e: f64) -> %s { return blur(%s) }\n' % (V, LITV), head, G(D, name='gd') + wrap(r, 'gd(%s(1))' % f))


def p_cur(r, D, V, X):
    return G(D) + 'fn h() ~ v: %s { g(v) }\n' % V + wrap(r, '~ v := %s' % X, 'h()')


POS = [p_call, p_named, p_second, p_local, p_arg, p_mut, p_expr, p_expr, p_return, p_return, p_math, p_if, p_block, p_go, p_sift, p_try,
       p_clo, p_inclo, p_clopass, p_grab, p_assign, p_cur, p_import, p_import, p_import]


def nest(r, e):
    """A numeric expression inside others."""
    for _ in range(r.randint(0, 2)):
        e = r.choice(('1 + %s', '%s * 2', '(%s, 2)', '[%s]', '[%s; 2]', '{k: %s}', 'some(%s)', 'str(%s)',
                      '-%s', 'sum i 2 { %s }', 'sift i 2 { %s }', 'clone(%s)', 'link { %s }', 'vec4 i %s',
                      'x((%s, 2))', 'unwrap(ok(%s))') + (() if e[0] in '-1' else ('!(%s > 3)', 'if %s < 2 { 1 } else { 2 }', 'any i 2 { %s == 1 }'))) % e
        if not e.startswith(('1 +', '-')) or r.random() < .5:
            break
    return e


def ind(ls):
    return ['    ' + l for x in ls for l in x.split('\n')]


def wrap(r, *ls):
    """The statements in random nested statements of f."""
    ls = list(ls)
    for _ in range(r.choice((0, 0, 0, 1, 1, 2))):
        ls = wrapping.enclose(r, ls, r.randint(0, wrapping.TOP))
    t = 'fn f() {\n' + ''.join('    %s\n' % l for x in ls for l in x.split('\n')) + '}\n'
    return wrapping.recv(t)


class Mild:
    """No branches around the statement."""

    def __init__(self, r):
        self.r = r

    def choice(self, x):
        return self.r.choice(x)

    def randint(self, a, b):
        return self.r.randint(3, b) if (a, b) == (0, wrapping.TOP) else self.r.randint(a, b)

    def random(self):
        return self.r.random()


def matrix(r):
    V = rtype(r)
    D = V if r.random() < .2 else near(r, V) if r.random() < .5 else rtype(r)
    p = r.choice(POS)
    if p in (p_sift, p_try, p_clopass) and (D[0] == 'sec' or V[0] == 'sec' or 'thr' in (D[0], V[0])):
        p = p_call
    if p in (p_math, p_clo, p_clopass) and 'clo' in (V[0], D[0]):
        p = p_call
    if p is p_grab and has(V, ('thr', 'in')):
        p = p_local
    if has(V, ('thr', 'in')) and p in (p_assign, p_return):
        p = p_local
    vs = Values()
    X = vs.fn(V) + '()'
    global LITV
    LITV = vs.lit(V) if not has(V, ('thr', 'in')) else 'none()'
    t = p(r, text(D), text(V), X)
    if isinstance(t, tuple):
        if LITV == 'none()':
            return matrix(r)
        t = (t[0], t[1] + ''.join(vs.out) + t[2])
    else:
        t = ''.join(vs.out) + t
    ok = fits(D, V)
    return t, ok, 'a value of type `%s` for `%s` (%s)' % (text(V), text(D), p.__name__[2:]), [kind(V) if V != ('any',) else 'number'], p.__name__[2:]


def has(t, ks):
    return t[0] in ks or any(has(x, ks) for x in t[1:] if isinstance(x, tuple))


def near(r, t):
    """A type that differs a little."""
    k = t[0]
    if k in ('[]', 'opt', 'res', 'thr') and r.random() < .7:
        return (k, near(r, t[1]))
    if k == 'clo' and r.random() < .8:
        x = r.random()
        if x < .3:
            return ('clo', t[1], near(r, t[2]))
        if x < .6 and t[1]:
            a = list(t[1])
            i = r.randrange(len(a))
            a[i] = near(r, a[i])
            return ('clo', a, t[2])
        return ('clo', t[1] + [('f64',)], t[2])
    if k == 'adhoc':
        return r.choice((('adhoc', 'Foo' if t[1] == 'Bar' else 'Bar', t[2]), t[2], ('adhoc', t[1], (r.choice(BASE[:5]),))))
    if k == 'sec':
        return r.choice((t[1], ('sec', ('f64' if t[1][0] == 'bool' else 'bool',))))
    return r.choice((('adhoc', r.choice(NAMES), t) if k in BASE[:5] else t, ('[]', t), ('opt', t), (r.choice(BASE),),
                     ('sec', t) if k in ('bool', 'f64') else t, ('any',)))


# Operators on plain types.
n, b, v, m, s, l, a, o, q = 'f64', 'bool', 'vec4', 'mat4', 'str', 'link', '[]', '{}', 'opt'
ARITH = {(n, n): n, (v, v): v, (v, n): v, (n, v): v}
ADD = {**ARITH, **{(m, m): m, (n, m): m, (m, n): m, (b, b): b}}
OPS = {'+': {**ADD, **{(s, s): s, (l, l): l}}, '-': ADD, '*': {**ADD, **{(m, v): v}}, '/': ARITH, '%': ARITH, '^': {**ARITH, **{(b, b): b}},
       '·': {(v, v): n, (v, n): n, (n, v): n}, 'x': {(v, v): v}, '&&': {(b, b): b}, '||': {(b, b): b},
       '<': {(n, n): b, (s, s): b}}
OPS['<='] = OPS['>'] = OPS['>='] = OPS['<']
OPS['=='] = OPS['!='] = dict({(k, k): b for k in (n, b, s, v, o, a, q)})
UN = {'-': {n: n, v: v, m: m}, '!': {b: b}}


def plain(t):
    if t[0] == 'sec':
        return t[1][0]
    return t[0]


def operators(r):
    vs = Values()
    pick = [('bool',), ('f64',), ('vec4',), ('mat4',), ('str',), ('link',), ('[]', ('f64',)), ('{}',), ('opt', ('str',)), ('res', ('f64',)),
            ('sec', ('bool',)), ('sec', ('f64',)), ('clo', [('f64',)], ('f64',))]
    if r.random() < .12:
        op = r.choice(('-', '!'))
        A = r.choice(pick)
        R = UN[op].get(plain(A))
        e = '%s%s()' % (op, vs.fn(A))
        desc = '%s%s' % (op, text(A))
    else:
        op = r.choice(sorted(OPS))
        A, B = r.choice(pick), r.choice(pick)
        if r.random() < .5:
            ks = r.choice(sorted(OPS[op]))
            A, B = [r.choice([p for p in pick if plain(p) == k]) for k in ks]
            if r.random() < .3:
                B = r.choice(pick)
        R = OPS[op].get((plain(A), plain(B)))
        e = '%s() %s %s()' % (vs.fn(A), op, vs.fn(B))
        desc = '%s %s %s' % (text(A), op, text(B))
    if R is not None and r.random() < .6:
        D = r.choice([('bool',), ('f64',), ('vec4',), ('mat4',), ('str',), ('link',), ('[]', ('any',)), (R,), (R,)])
        t = G(text(D)) + wrap(r, *(('g(%s)' % e,) if r.random() < .5 else ('x := %s' % e, 'g(x)')))
        ok = D == (R,)
        return ''.join(vs.out) + t, ok, '`%s` for `%s`' % (desc, text(D)), [KIND[R]], 'operator'
    t = wrap(r, 'x := %s' % e, 'emit(typeof(x))')
    return ''.join(vs.out) + t, R is not None, 'operands of `%s`' % desc, R and [KIND[R]], 'operator'


def adhoc(r):
    """Ad-hoc types must agree in sums, and are carried to the result."""
    op = r.choice('+-')
    ty = r.choice((('f64', 'f64', 'f64'), ('vec4', 'vec4', 'vec4'), ('f64', 'vec4', 'vec4'), ('vec4', 'f64', 'vec4')))
    x, y, z = r.choice(NAMES), r.choice(NAMES), r.choice(NAMES + ('',))
    vs = Values()
    e = '%s() %s %s()' % (vs.fn(('adhoc', x, (ty[0],))), op, vs.fn(('adhoc', y, (ty[1],))))
    D = ('adhoc', z, (ty[2],)) if z else (ty[2],)
    if r.random() < .2:
        y2 = r.choice(NAMES)
        t = wrap(r, 'a := %s()' % vs.fn(('adhoc', x, ('f64',))), 'a %s= %s()' % (op, vs.fn(('adhoc', y2, ('f64',)))), 'emit(typeof(a))')
        return ''.join(vs.out) + t, x == y2, '`%s f64` %s= `%s f64`' % (x, op, y2), ['number'], 'ad-hoc'
    t = G(text(D)) + wrap(r, 'g(%s)' % e)
    return (''.join(vs.out) + t, x == y and z in ('', x), '`%s %s` %s `%s %s` for `%s`' % (x, ty[0], op, y, ty[1], text(D)),
            [KIND[ty[2]]], 'ad-hoc')


SKIP = ('add', 'sub', 'mul', 'div', 'rem', 'pow', 'not', 'neg', 'dot', 'and_also', 'or_else', 'less', 'less_or_equal', 'greater',
        'greater_or_equal', 'equal', 'not_equal')
NORUN = ('args_os', 'backtrace', 'call', 'call_ret', 'check__', 'debug', 'download', 'eprint', 'print', 'functions', 'load', 'meta__', 'module__',
         'read_', 'save', 'sleep', 'syntax', 'unwrap_err', 'wait_next', 'json_from', 'errstr', 'insert', 'remove', 'swap')


def library(r):
    name, tys, ret = r.choice([x for x in stdlib.SIGS if x[0] not in SKIP])
    tys, ret = [parse(t) for t in tys], parse(ret)
    vs = Values()
    base = name.split('(')[0]
    muts = name[len(base):].strip('()').split(',') if '(' in name else []
    bad = r.randrange(len(tys)) if tys and r.random() < .5 else None
    args, pre, ok = [], [], True
    for i, t in enumerate(tys):
        V = t
        if i == bad:
            V = r.choice((near(r, t), rtype(r)))
            ok = fits(t, V)
        elif t == ('[]', ('any',)) and r.random() < .5:
            V = ('[]', (r.choice(BASE),))
        elif t == ('any',):
            V = ('opt', ('f64',)) if base in ('unwrap', 'unwrap_or') else (r.choice(BASE),)
        elif t[0] == 'f64' and r.random() < .2:
            V = ('sec', ('f64',))
        e = vs.fn(V) + '()'
        if i < len(muts) and muts[i] == 'mut':
            pre.append('m%d := %s' % (i, e))
            e = 'mut m%d' % i
        elif base.endswith('_ref') and t == ('any',):
            pre.insert(0, 'm%d := %s' % (i, e))
            e = 'm%d' % i
        args.append(e)
    if '__' in base:
        w, names = base.split('__', 1)
        call = '%s(%s)' % (w, ', '.join('%s: %s' % x for x in zip(names.split('_'), args)))
    else:
        call = '%s(%s)' % (base, ', '.join(args))
    what = '%s(%s)' % (base, ', '.join(map(text, tys)))
    run = bad is None and not base.startswith(NORUN)
    if ret == ('void',):
        return ''.join(vs.out) + wrap(r, *pre, call), ok, 'arguments of ' + what, [] if run else None, 'library'
    if r.random() < .3 and ret != ('any',):
        D = near(r, ret) if r.random() < .7 else rtype(r)
        return (''.join(vs.out) + G(text(D)) + wrap(r, *pre, 'g(%s)' % call), ok and fits(D, ret), 'result of %s for `%s`' % (what, text(D)),
                [kind(ret)] if run else None, 'library')
    k = ['emit(typeof(z))'] if run and ret != ('any',) else []
    return (''.join(vs.out) + wrap(r, *pre, 'z := %s' % call, *k), ok, 'arguments of ' + what, [kind(ret)] if k else [] if run else None,
            'library')


def statements(r):
    vs = Values()
    V = rtype(r)
    X = vs.fn(V) + '()'
    isb, isn, isv = fits(('bool',), V), fits(('f64',), V), fits(('vec4',), V)
    x = r.randint(0, 13)
    run = None
    if x == 0:
        # Branches of `if` are not checked for unused results.
        t, ok, d = wrap(Mild(r), X, 'w := 1'), False, 'unused result of type `%s`' % text(V)
    elif x == 1:
        t = wrap(r, 'if %s {' % X + '\n    w := 1\n}')
        ok, d = isb, '`%s` as condition' % text(V)
    elif x == 2:
        t = wrap(r, 'if false {\n    w := 1\n} else if %s {' % X + '\n    w := 1\n}')
        ok, d = isb, '`%s` as second condition' % text(V)
    elif x == 3:
        A, B = (r.choice(BASE),), (r.choice(BASE),)
        t = wrap(r, 'z := if true { %s() } else { %s() }' % (vs.fn(A), vs.fn(B)), 'emit(typeof(z))')
        ok, d, run = A == B, 'branches of `%s` and `%s`' % (text(A), text(B)), [kind(A)]
    elif x == 4:
        A, B = (r.choice(BASE),), (r.choice(BASE),)
        t = wrap(r, 'z := if false { %s() } else if true { %s() } else { %s() }' % (vs.fn(A), vs.fn(B), vs.fn(A)), 'emit(typeof(z))')
        ok, d, run = A == B, 'middle branch of `%s` among `%s`' % (text(B), text(A)), [kind(A)]
    elif x == 5:
        if V[0] in ('sec', 'adhoc'):
            return statements(r)
        c = ['1', '2', '3', '4'][:r.randint(2, 4)]
        c[r.randrange(len(c))] = X
        t = wrap(r, 'z := (%s)' % ', '.join(c), 'emit(typeof(z))')
        ok, d, run = isn, '`%s` as vector component' % text(V), ['vec4'] if V != ('any',) else ['vec4']
    elif x == 6:
        if V[0] in ('sec', 'adhoc'):
            return statements(r)
        t = 'fn g(a: f64, b: f64) {\n    emit(typeof(a))\n}\n' + wrap(r, 'g(xy %s)' % X)
        ok, d, run = isv, '`%s` swizzled' % text(V), ['number'] if V != ('any',) else None
    elif x == 7:
        t = 'fn h(c: bool) -> %s {\n    if c {\n        return %s\n    }\n    return\n}\n' % (text(V), X) + wrap(r, 'z := h(true)')
        ok, d = False, '`return` without value in a function returning `%s`' % text(V)
    elif x == 8:
        t = 'fn h(c: bool) -> %s {\n    w := %s\n}\n' % (text(V), X) + wrap(r, 'z := h(true)')
        ok, d = False, 'function returning `%s` without `return`' % text(V)
    elif x == 9:
        t = 'fn h() {\n    w := 1\n}\n' + r.choice((wrap(r, 'z := [h()]'), wrap(r, 'z := 1 + h()'), wrap(r, 'emit(h())'), wrap(r, 'z := {a: h()}')
                                                    if False else wrap(r, 'emit(h())'), wrap(r, 'z := some(h())'), wrap(r, 'push(mut [1], h())')
                                                    if False else wrap(r, 'z := str(h())'), 'fn k() -> %s { return h() }\n' % text(V) + wrap(r, 'z := k()')))
        if '[h()]' in t or '{a: h()}' in t:
            return statements(r)
        ok, d = False, 'result of a function without one used as a value'
    elif x == 10:
        t = 'fn h() {\n    w := 1\n}\n' + wrap(r, 't := go h()')
        ok, d = False, 'a thread for a function without result'
    elif x == 11:
        if V[0] in ('clo', 'any') or V[0] == 'adhoc':
            return statements(r)
        t = wrap(r, 'c := %s' % X, 'z := \\c(1)')
        ok, d = False, '`%s` called as a closure' % text(V)
    elif x == 12:
        t = 'fn h() -> %s {\n    return %s\n}\n' % (text(V), X) + 'fn k() {\n    return %s\n}\n' % X + wrap(r, 'z := h()')
        ok, d = False, '`return` of `%s` in a function without result' % text(V)
    else:
        t = wrap(r, 'w := %s' % X, 'emit(typeof(w))')
        ok, d, run = True, 'a local of type `%s`' % text(V), [kind(V) if V != ('any',) else 'number']
    return ''.join(vs.out) + t, ok, d, run, 'statement'


def refined(r):
    """The first rule that fits gives the type of the result; no rule is an error."""
    k = r.randint(1, 2)
    tys = [(x,) for x in BASE[:5]]
    rules = [([r.choice(tys) for _ in range(k)], r.choice(tys)) for _ in range(r.randint(1, 3))]
    args = list(r.choice(rules)[0]) if r.random() < .7 else [r.choice(tys) for _ in range(k)]
    if r.random() < .2:
        i = r.randrange(k)
        if args[i][0] in ('bool', 'f64'):
            args[i] = ('sec', args[i])
    ret = next((t for a, t in rules if all(map(fits, a, args))), None)
    vs = Values()
    for t in tys:
        vs.fn(t)
    D = r.choice(tys)
    ps = ', '.join('p%d: any' % i for i in range(k))
    body = 'return blur(p0)'
    t = 'fn h(%s) -> any { %s }\n' % (ps, body) + ''.join('    (%s) -> %s\n' % (', '.join(map(text, a)), text(x)) for a, x in rules) + '\n'
    t += 'fn g(d: %s) { }\n' % text(D) + wrap(r, 'g(h(%s))' % ', '.join(vs.fn(a) + '()' for a in args))
    return (''.join(vs.out) + t, ret is not None and fits(D, ret),
            'rules %s applied to (%s) for `%s`' % ('; '.join('(%s) -> %s' % (', '.join(map(text, a)), text(x)) for a, x in rules),
                                                   ', '.join(map(text, args)), text(D)), None, 'refinement')


def contradicting(r):
    """A rule has as many arguments as the function, and types that go with the declared ones; only functions with a result have rules."""
    k, tys = r.randint(1, 4), [(x,) for x in BASE[:5]]
    ps = [r.choice(tys + [('any',)]) for _ in range(k)]
    ret = r.choice(tys + [('any',)])
    rule = lambda ts: [r.choice(tys) if t == ('any',) else t for t in ts]
    rules = [(rule(ps), rule([ret])[0]) for _ in range(r.randint(1, 3))]
    void, ok, d, at = r.random() < .1, True, 'rules that go with', r.randrange(len(rules))
    x = r.random()
    a, b = rules[at]
    if void:
        ok, d = False, 'rules for a function without result:'
    elif x < .35:
        i = r.randrange(k)
        if ps[i] != ('any',):
            a[i] = r.choice([t for t in tys if t != ps[i]])
            ok, d = False, 'argument %d of rule %d contradicts' % (i, at)
    elif x < .5:
        if ret != ('any',):
            rules[at] = (a, r.choice([t for t in tys if t != ret]))
            ok, d = False, 'the result of rule %d contradicts' % at
    elif x < .7:
        if r.random() < .5 and k > 1:
            del a[r.randrange(k)]
        else:
            a.insert(r.randint(0, k), r.choice(tys))
        # The types may contradict too.
        ok, d = False, 'the number of arguments of rule %d contradicts' % at
    head = 'fn h(%s)%s { %s }\n' % (', '.join('%sp%d: %s' % ('mut ' if r.random() < .15 else '', i, text(t)) for i, t in enumerate(ps)),
                                   '' if void else ' -> %s' % text(ret), 'w := 1' if void else 'return blur(1)')
    t = head + ''.join('    (%s) -> %s\n' % (', '.join(map(text, q)), text(z)) for q, z in rules) + '\n' + wrap(r, 'w := 1')
    return t, ok, '%s `%s`: %s' % (d, head.strip(), '; '.join('(%s) -> %s' % (', '.join(map(text, q)), text(z)) for q, z in rules)), None, 'refinement rule'


def quantified(r):
    x, y, z = r.choice(NAMES), r.choice(NAMES + ('',)), r.choice(NAMES + ('',))
    ty = r.choice(('f64', 'str', 'vec4'))
    vs = Values()
    A, B = ('adhoc', x, (ty,)), (('adhoc', y, (ty,)) if y else (ty,))
    D = ('adhoc', z, (ty,)) if z else (ty,)
    t = 'fn h(a: any, b: any) -> any { return blur(a) }\n    all T { (T %s, T %s) -> T %s }\n\n' % (ty, ty, ty)
    t += 'fn g(d: %s) { }\n' % text(D) + wrap(r, 'g(h(%s(), %s()))' % (vs.fn(A), vs.fn(B)))
    return (''.join(vs.out) + t, x == y and z in ('', x), '`all T` applied to `%s` and `%s` for `%s`' % (text(A), text(B), text(D)), None,
            'refinement')


RK = ('true', '2.5', '(1, 2)', LIT['mat4'], '"a"', 'link { 1 }', '{a: 1}', '[1]', 'some(1)', 'ok(2)', '\\(x: f64) = x + 1')
RN = ('bool', 'f64', 'vec4', 'mat4', 'str', 'link', '{}', '[]', 'opt', 'res', 'closure')


def assign(r):
    """Re-assignment with a value that the loader knows nothing about."""
    i, j = r.randrange(len(RK)), r.randrange(len(RK))
    if r.random() < .4:
        j = i
    w, tgt = r.choice((('x := %s', 'x'), ('x := [%s, 1]', 'x[0]'), ('x := {k: %s}', 'x.k'), ('x := {k: [1, %s]}', 'x.k[1]')))
    t = wrap(r, w % RK[i], '%s = blur(%s)' % (tgt, RK[j]), 'emit(typeof(%s))' % tgt)
    return t, True, 'assigning `%s` to a place holding `%s`' % (RN[j], RN[i]), ([KIND.get(RN[j], 'closure')] if i == j else 'error'), 'assignment'


GENS = (matrix, matrix, matrix, matrix, operators, operators, adhoc, library, library, statements, statements, refined, quantified, contradicting, assign)
BATCH = 15


def loading(m, t):
    if isinstance(t, tuple):
        return [('mod', m + 'l'), ('load', m + 'l', 'lib.dyon', t[0]), ('mod', m), ('import', m, m + 'l'), ('load', m, 'a.dyon', t[1])]
    return [('mod', m), ('load', m, 'a.dyon', t)]


def case(ctx, rng, i):
    jobs = [GENS[(i + k) % len(GENS)](rng) for k in range(BATCH)]
    ops = []
    for k, (t, ok, d, run, kd) in enumerate(jobs):
        ops += loading('m%d' % k, t)
        if run is not None and ok:
            ops += [('rt', 'r'), ('call', 'r', 'm%d' % k, 'f')]
    rep = ctx.run(ops)
    if rep.died:
        ctx.inconclusive('process ' + rep.died)
        return
    # Split the events by load.
    parts, cur, lib = [], None, [x for j in jobs for x in ([True, False] if isinstance(j[0], tuple) else [False])]
    for e in rep.events:
        if e[0] == 'load' and lib.pop(0):
            if e[1][1] != 'ok':
                ctx.inconclusive('library rejected', show(e[2]))
                return
        elif e[0] == 'load':
            cur = []
            parts.append((e, cur))
        elif cur is not None:
            cur.append(e)
    if len(parts) != len(jobs):
        ctx.inconclusive('loads missing', str(len(parts)))
        return
    for (t, ok, d, run, kd), (ld, ev) in zip(jobs, parts):
        acc = ld[1][1] == 'ok'
        one = loading('m', t) + [('rt', 'r'), ('call', 'r', 'm', 'f')]
        t = t if isinstance(t, str) else '\n// ----\n'.join(t)
        if ok is None:
            ok = False
        if acc != bool(ok):
            ctx.violation('C18', '%s: the program was %s\n%s\n%s' % (d, 'accepted' if acc else 'rejected', '' if acc else show(ld[2], 500), t), one)
            continue
        ctx.seen(t, True)
        ctx.cov['accepted' if acc else 'rejected'] += 1
        ctx.kind('place', kd)
        ctx.sample('%s: %s\n%s' % (d, 'accepted' if acc else 'rejected', t))
        if not acc or run is None:
            if not acc and b'Type mismatch' not in repr(ld[2]).encode():
                ctx.kind('other rejections', show(ld[2], 200).split('\\n')[2][:60] if '\\n' in show(ld[2], 200) else '')
            continue
        got = [e[1] for e in ev if e[0] == 'e']
        err = [e for e in ev if e[0] == 'panic' or e[0] == 'end' and e[1][1] != 'ok']
        ctx.cov['runs'] += 1
        if run == 'error':
            if not err or got:
                ctx.violation('C18', '%s was not reported as an error\n%s' % (d, t), one)
        elif err or sorted({g[1] for g in got}) != run:
            ctx.violation('C18', '%s: expected a value of type %s, observed %s %s\n%s' % (d, run, [sh(e) for e in ev], '', t), one)
