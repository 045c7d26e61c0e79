"""C07: operators and numeric functions."""
import math
from lang import arith, binop as binop_, compare as compare_, Fault, fdiv
from wire import enc, f32, num, boolean, st, same, show, feq, NAN

PLAN = {'quick': (3000, 7500, 300), 'thorough': (60000, 400000, 2400)}
RULE = ('Every binary, unary and compound assignment operator is called by the host on operands of every pair of types, with special '
        'and ordinary values; every numeric, vector and matrix function is called on values of the right and of wrong types; '
        'operator chains with random nesting are written without needless parentheses. Non-trivial: an evaluation with an observed '
        'result or error; distinct by operation, operands and outcome.')
TECHNIQUE = ('results observed at the host boundary against an independent model of the arithmetic '
             '(double precision for numbers, single for vectors and matrices)')
NOTE = ('Numbers are compared bit by bit for + - * / % and comparisons, within 1e-12 for library functions, within 1e-5 relative to '
        'the terms for single precision. Operand types without a definition must give an error, never a value or a crash.')

BIN = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%', 'pow': '^', 'dot': '*.', 'cross': 'x', 'lt': '<', 'le': '<=',
       'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!=', 'and': '&&', 'or': '||', 'xorw': 'xor', 'orw': 'or', 'andw': 'and',
       'uand': '∧', 'uor': '∨', 'uxor': '⊻', 'udot': '·', 'ucross': '⨯', 'une': '¬='}
CANON = {'xor': '^', 'or': '+', 'and': '*', '∧': '*', '∨': '+', '⊻': '^', '·': '*.', '⨯': 'x', '¬=': '!='}
ASG = {'aadd': '+=', 'asub': '-=', 'amul': '*=', 'adiv': '/=', 'arem': '%=', 'apow': '^='}
UN = {'neg': '-a', 'not': '!a', 'unot': '¬a', 'norm': '|a|'}
N1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
      'atan': math.atan, 'exp': math.exp, 'ln': math.log, 'log2': math.log2, 'log10': math.log10, 'abs': abs}
V1 = ('x', 'y', 'z', 'w', 'mov', 'scale')
M1 = ('det', 'inv', 'rx', 'ry', 'rz', 'rw', 'cx', 'cy', 'cz', 'cw')
OTHER = {'s': ('a', 'b'), 'rv': ('a', 'b'), 'cv': ('a', 'b'), 'atan2': ('a', 'b'), 'is_nan': ('a',), 'round': ('a',),
         'floor': ('a',), 'ceil': ('a',), 'min': ('a',), 'max': ('a',)}
NAMED = {'dirf': ('dir(angle: a)', 1), 'rotf': ('rot(axis: a, angle: b)', 2),
         'orthof': ('ortho(pos: a, right: b, up: c, forward: d)', 4), 'projf': ('proj(fov: a, near: b, far: c, ar: d)', 4),
         'mvpf': ('mvp(model: a, view: b, projection: c)', 3), 'srgb': ('linear_to_srgb(color: a)', 1),
         'linear': ('srgb_to_linear(color: a)', 1), 'tauf': ('tau()', 0)}
LETTERS = 'abcd'
SP = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 7.0, -2.5, 10.0, 1e300, -1e300, 1e-310, math.inf, -math.inf, NAN, math.pi, 1e16, 0.1,
      4294967296.0, 9007199254740993.0]


class NoDef(Exception):
    """The operation has no definition for the operands."""


class Skip(Exception):
    """The model makes no claim."""


def cols(m):
    return [m[1][4 * i:4 * i + 4] for i in range(4)]


def mat(c):
    return ('m', tuple(f32(x) for col in c for x in col))


def mmul(a, b):
    a, b = cols(a), cols(b)
    return mat([[sum(a[k][r] * b[c][k] for k in range(4)) for r in range(4)] for c in range(4)])


def binop(op, a, b):
    """(value, tolerance)"""
    op = CANON.get(op, op)
    ka, kb = a[0], b[0]
    if op in ('<', '<=', '>', '>=', '==', '!='):
        try:
            return compare_(op, a, b), 0
        except Fault:
            raise NoDef()
    if op == '&&':
        if ka != 'b' or (a[1] and kb != 'b'):
            raise NoDef()
        return (boolean(a[1] and b[1], a[2]) if a[1] else a), 0
    if op == '||':
        if ka != 'b' or (not a[1] and kb != 'b'):
            raise NoDef()
        return (a if a[1] else boolean(b[1], a[2])), 0
    if op == '*.':
        if ka == 'v' and kb == 'v':
            t = [x * y for x, y in zip(a[1], b[1])]
        elif {ka, kb} == {'v', 'n'}:
            v, n = (a, b) if ka == 'v' else (b, a)
            t = [x * f32(n[1]) for x in v[1]]
        else:
            raise NoDef()
        return num(sum(t)), 1e-6 * sum(abs(x) for x in t) + 1e-30
    if op == 'x':
        if ka == 'v' and kb == 'v':
            p, q = a[1], b[1]
            t = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0], 0.0]
            return ('v', tuple(t)), 1e-6 * max([abs(x) * abs(y) for x in p for y in q] + [1e-30])
        raise NoDef()
    if ka == 'm' or kb == 'm':
        if ka == kb == 'm':
            if op == '*':
                big = max(abs(x) for x in a[1]) * max(abs(x) for x in b[1]) * 8
                return mmul(a, b), 1e-6 * big + 1e-30
            if op in '+-':
                return ('m', tuple(f32(arith(op, x, y)) for x, y in zip(a[1], b[1]))), 0
        elif ka == 'm' and kb == 'v' and op == '*':
            c = cols(a)
            r = tuple(sum(c[k][i] * b[1][k] for k in range(4)) for i in range(4))
            return ('v', r), 1e-6 * max(abs(x) for x in a[1]) * max(abs(x) for x in b[1]) * 8 + 1e-30
        elif {ka, kb} == {'m', 'n'} and op in '+-*':
            if ka == 'm':
                return ('m', tuple(f32(arith(op, x, f32(b[1]))) for x in a[1])), 0
            return ('m', tuple(f32(arith(op, f32(a[1]), x)) for x in b[1])), 0
        raise NoDef()
    try:
        r = binop_(op, a, b)
    except Fault:
        raise NoDef()
    tol = 0
    if op == '^' and r[0] == 'v':
        tol = 'rel'
    if op == '^' and r[0] == 'n':
        tol = 'rel'
    return r, tol


def assign(op, a, b):
    o = op[0]
    ka, kb = a[0], b[0]
    if ka == 'n' and kb == 'n':
        return ('n', arith(o, a[1], b[1]), b[2]), 'rel' if o == '^' else 0
    if ka == 'v' and kb in 'vn':
        return binop(o, a, b)
    if ka == 'm' and kb == 'm' and o in '+-*':
        return binop(o, a, b)
    if ka == 's' and kb == 's' and o == '+':
        return binop(o, a, b)
    if ka == 'l' and o == '+' and kb in 'nbs':
        return ('l', a[1] + (b if kb == 's' else (kb, b[1], None),)), 0
    if ka == 'l' and kb == 'l' and o in '+-':
        return ('l', a[1] + b[1] if o == '+' else b[1] + a[1]), 0
    raise NoDef()


def unop(name, a):
    if name == 'neg':
        if a[0] == 'n':
            return ('n', -a[1], a[2]), 0
        if a[0] in 'vm':
            return (a[0], tuple(-x for x in a[1])), 0
    elif name in ('not', 'unot'):
        if a[0] == 'b':
            return ('b', not a[1], a[2]), 0
    elif a[0] == 'v':
        r = math.sqrt(sum(x * x for x in a[1]))
        return num(r), 1e-6 * r + 1e-30
    raise NoDef()


def need(v, k):
    if v[0] != k:
        raise NoDef()
    return v[1]


def det4(m):
    m = [list(map(float, r)) for r in m]
    d = 1.0
    for i in range(4):
        p = max(range(i, 4), key=lambda r: abs(m[r][i]))
        if m[p][i] == 0:
            return 0.0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, 4):
            f = m[r][i] / m[i][i]
            for c in range(i, 4):
                m[r][c] -= f * m[i][c]
    return d


def inv4(m):
    a = [list(map(float, r)) + [float(i == j) for j in range(4)] for i, r in enumerate(m)]
    for i in range(4):
        p = max(range(i, 4), key=lambda r: abs(a[r][i]))
        a[i], a[p] = a[p], a[i]
        q = a[i][i]
        a[i] = [x / q for x in a[i]]
        for r in range(4):
            if r != i:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return [r[4:] for r in a]


def func(name, args):
    a = args[0] if args else None
    b = args[1] if len(args) > 1 else None
    if name in N1:
        x = need(a, 'n')
        try:
            if name in ('ln', 'log2', 'log10') and x == 0:
                return num(-math.inf), 0
            if x in (math.inf, -math.inf) and name in ('sin', 'cos', 'tan'):
                return num(NAN), 0
            return num(N1[name](x)), 'rel'
        except ValueError:
            return num(NAN), 0
        except OverflowError:
            return num(math.inf), 0
    if name == 'atan2':
        return num(math.atan2(need(a, 'n'), need(b, 'n'))), 'rel'
    if name == 'is_nan':
        x = need(a, 'n')
        return boolean(x != x), 0
    if name in ('round', 'floor', 'ceil'):
        x = need(a, 'n')
        if x != x or abs(x) >= 2 ** 53:
            return num(x), 0
        if name == 'round':
            r = math.floor(abs(x)) + (1 if abs(x) - math.floor(abs(x)) >= .5 else 0)
        else:
            r = getattr(math, name)(x)
            return num(math.copysign(abs(r), x)), 0
        return num(math.copysign(r, x)), 0
    if name in ('min', 'max'):
        r = NAN
        for y in need(a, 'a'):
            if y[0] != 'n':
                raise Skip()
            if y[1] == y[1] and (r != r or (y[1] < r if name == 'min' else y[1] > r)):
                r = y[1]
        return num(r), 1e-300
    if name in ('x', 'y', 'z', 'w'):
        return num(need(a, 'v')['xyzw'.index(name)]), 0
    if name in ('s', 'rv', 'cv'):
        i, v = need(b, 'n'), need(a, 'v' if name == 's' else 'm')
        if i != i or i < 0 or i != int(i if abs(i) < 1e9 else 0):
            raise Skip()
        if i >= 4:
            raise NoDef()
        i = int(i)
        if name == 's':
            return num(v[i]), 0
        return ('v', tuple(v[i::4]) if name == 'rv' else tuple(v[4 * i:4 * i + 4])), 0
    if name in ('rx', 'ry', 'rz', 'rw'):
        i = 'xyzw'.index(name[1])
        return ('v', tuple(need(a, 'm')[i::4])), 0
    if name in ('cx', 'cy', 'cz', 'cw'):
        i = 'xyzw'.index(name[1])
        return ('v', tuple(need(a, 'm')[4 * i:4 * i + 4])), 0
    if name == 'mov':
        v = need(a, 'v')
        return mat([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [v[0], v[1], v[2], 1]]), 0
    if name == 'scale':
        v = need(a, 'v')
        return mat([[v[0], 0, 0, 0], [0, v[1], 0, 0], [0, 0, v[2], 0], [0, 0, 0, 1]]), 0
    if name == 'det':
        need(a, 'm')
        big = max(abs(x) for x in a[1]) + 1
        return num(det4(cols(a))), 1e-5 * big ** 4
    if name == 'inv':
        need(a, 'm')
        d = det4(cols(a))
        big = max(abs(x) for x in a[1])
        if abs(d) < 1e-2 * max(big, 1) ** 3 or not (big < 1e6):
            raise Skip()
        r = inv4(cols(a))
        return mat(r), 1e-4 * (1 + max(abs(x) for row in r for x in row)) * (1 + big ** 4 / abs(d))
    if name == 'dirf':
        x = need(a, 'n')
        if abs(x) > 1e9 or x != x:
            raise Skip()
        return ('v', (math.cos(x), math.sin(x), 0.0, 0.0)), 1e-6
    if name == 'rotf':
        u, g = need(a, 'v'), need(b, 'n')
        if not abs(g) < 1e9:
            raise Skip()
        c, s_, k = math.cos(g), math.sin(g), 1 - math.cos(g)
        u0, u1, u2 = u[:3]
        return mat([[c + u0 * u0 * k, u0 * u1 * k - u2 * s_, u0 * u2 * k + u1 * s_, 0],
                    [u1 * u0 * k + u2 * s_, c + u1 * u1 * k, u1 * u2 * k - u0 * s_, 0],
                    [u2 * u0 * k - u1 * s_, u2 * u1 * k + u0 * s_, c + u2 * u2 * k, 0], [0, 0, 0, 1]]), \
            1e-5 * (1 + max(abs(x) for x in u) ** 2)
    if name == 'orthof':
        p, r, u, f = [need(x, 'v') for x in args]
        d = lambda x: -sum(i * j for i, j in zip(x, p))
        big = max(abs(i) for v in (p, r, u, f) for i in v) + 1
        return mat([[r[0], u[0], f[0], 0], [r[1], u[1], f[1], 0], [r[2], u[2], f[2], 0], [d(r), d(u), d(f), 1]]), 1e-5 * big * big
    if name == 'projf':
        fov, near, far, ar = [need(x, 'n') for x in args]
        if any(x != x or abs(x) > 1e6 for x in (fov, near, far, ar)) or near == far or ar == 0:
            raise Skip()
        t = math.tan(fov * math.pi)
        if abs(t) < 1e-6 or abs(t) > 1e6:
            raise Skip()
        f = 1 / t
        z = [f / ar, f, (far + near) / (near - far), 2 * far * near / (near - far)]
        if any(abs(x) > 1e30 for x in z):
            raise Skip()
        return mat([[z[0], 0, 0, 0], [0, z[1], 0, 0], [0, 0, z[2], -1], [0, 0, z[3], 0]]), 1e-5 * (1 + max(map(abs, z)))
    if name == 'mvpf':
        m, v, p = args
        for x in args:
            need(x, 'm')
        big = max(abs(x) for y in args for x in y[1]) + 1
        return mmul(mmul(p, v), m), 1e-5 * 16 * big ** 3
    if name == 'linear':
        v = need(a, 'v')
        if any(not abs(x) < 1e6 for x in v):
            raise Skip()
        return ('v', tuple(x / 12.92 if x <= 0.04045 else ((x + .055) / 1.055) ** 2.4 for x in v[:3]) + v[3:]), 'rel'
    if name == 'srgb':
        v = need(a, 'v')
        if any(not abs(x) < 1e6 for x in v):
            raise Skip()
        return ('v', tuple(x * 12.92 if x <= 0.0031308 else 1.055 * x ** (1 / 2.4) - .055 for x in v[:3]) + v[3:]), 'rel'
    if name == 'tauf':
        return num(2 * math.pi), 0
    raise KeyError(name)


def ok(exp, tol, got):
    if tol == 0:
        return same(exp, got)
    if exp[0] != got[0]:
        return False
    xs = [exp[1]] if exp[0] == 'n' else exp[1]
    ys = [got[1]] if exp[0] == 'n' else got[1]
    if exp[0] == 'n' and exp[2] != got[2]:
        return False
    single = exp[0] in 'vm'
    for x, y in zip(xs, ys):
        if single:
            x = f32(x)
        if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf:
            if not feq(x, y) and not (single and (abs(x) == math.inf or abs(y) == math.inf) and max(min(abs(x), 3e38), min(abs(y), 3e38)) > 2e38):
                return False
            continue
        if tol == 'rel':
            t = (2e-5 if single else 1e-12) * max(abs(x), abs(y)) + (1e-30 if single else 1e-300)
        else:
            t = tol + (1e-7 if single else 1e-15) * max(abs(x), abs(y))
        if abs(x - y) > t:
            return False
    return True


def value(rng, d=0):
    k = rng.choice('nnnnnbbbssvvvvmmlao?rk' if d < 2 else 'nbs')
    if k == 'n':
        x = rng.choice(SP) if rng.random() < .6 else rng.choice((rng.uniform(-10, 10), float(rng.randint(-20, 20)), rng.gauss(0, 1e6)))
        return num(x, ((num(3),) if rng.random() < .1 else None))
    if k == 'b':
        return boolean(rng.random() < .5, ((num(1), num(2)) if rng.random() < .1 else None))
    if k == 's':
        return st(rng.choice(('', 'a', 'b', 'ab', 'Z', 'æ', '漢字', 'a\n', '10', '9')))
    if k == 'v':
        return ('v', comps(rng, 4))
    if k == 'm':
        return ('m', comps(rng, 16))
    if k == 'l':
        return ('l', tuple(rng.choice((num(1), boolean(True), st('q'), num(2.5))) for _ in range(rng.randint(0, 5))))
    if k == 'a':
        return ('a', tuple(value(rng, d + 1) for _ in range(rng.randint(0, 3))))
    if k == 'o':
        return ('o', {q: value(rng, d + 1) for q in rng.sample(('p', 'q', 'r'), rng.randint(0, 2))})
    if k == '?':
        return ('?', value(rng, d + 1) if rng.random() < .6 else None)
    if k == 'r':
        return ('ok', num(1))
    return ('err', st('m'), ())


def comps(rng, n):
    m = rng.random()
    if m < .6:
        return tuple(float(rng.randint(-5, 5)) / rng.choice((1, 1, 2)) for _ in range(n))
    if m < .9:
        return tuple(f32(rng.uniform(-3, 3)) for _ in range(n))
    return tuple(f32(rng.choice((0.0, -0.0, 1.0, 1e3, -1e-3, .5))) for _ in range(n))


FUNCS, KINDOF, ARITY = [], {}, {}


def table():
    def add(name, text, n, kind):
        FUNCS.append('fn f_%s(%s) -> {\n    %s\n}\n' % (name, ', '.join(LETTERS[:n]), text))
        KINDOF[name] = kind
        ARITY[name] = n
    for k, o in BIN.items():
        add(k, 'return a %s b' % o, 2, ('bin', o))
    for k, o in ASG.items():
        add(k, 'x := a\n    x %s b\n    return clone(x)' % o, 2, ('asg', o))
        add(k + 'e', 'x := [0, clone(a)]\n    x[1] %s b\n    return clone(x[1])' % o, 2, ('asg', o))
        add(k + 'p', 'x := {p: clone(a)}\n    x.p %s b\n    return clone(x.p)' % o, 2, ('asg', o))
    for k, t in UN.items():
        add(k, 'return %s' % t, 1, ('un', k))
    for k in list(N1) + list(V1) + list(M1):
        add('n' + k, 'return %s(a)' % k, 1, ('fn', k))
    for k, a in OTHER.items():
        add('n' + k, 'return %s(%s)' % (k, ', '.join(a)), len(a), ('fn', k))
    for k, (t, n) in NAMED.items():
        add(k, 'return %s' % t, n, ('fn', k))


table()
TYPES = {'s': 'vn', 'rv': 'mn', 'cv': 'mn', 'atan2': 'nn', 'is_nan': 'n', 'round': 'n', 'floor': 'n', 'ceil': 'n', 'min': 'a', 'max': 'a',
         'dirf': 'n', 'rotf': 'vn', 'orthof': 'vvvv', 'projf': 'nnnn', 'mvpf': 'mmm', 'srgb': 'v', 'linear': 'v', 'tauf': ''}
for _k in N1:
    TYPES[_k] = 'n'
for _k in V1:
    TYPES[_k] = 'v'
for _k in M1:
    TYPES[_k] = 'm'


def pick(rng, k):
    if k == 'a':
        return ('a', tuple(num(rng.choice(SP)) for _ in range(rng.randint(0, 5))))
    for _ in range(200):
        v = value(rng)
        if v[0] == k:
            return v


def operands(rng, kind, n):
    if kind[0] == 'fn':
        t = TYPES[kind[1]]
        if rng.random() < .2:
            return [value(rng) for _ in range(n)]
        a = [pick(rng, k) for k in t]
        if kind[1] in ('s', 'rv', 'cv') and rng.random() < .8:
            a[1] = num(rng.randint(0, 4))
        if kind[1] in ('srgb', 'linear'):
            a[0] = ('v', tuple(f32(rng.choice((rng.random(), rng.random() * .05, 0, 1))) for _ in range(4)))
        return a
    if rng.random() < .5:
        v = value(rng)
        w = v if rng.random() < .15 else pick(rng, v[0]) if v[0] in 'nbsvm' else value(rng)
        return [v, w][:n]
    if rng.random() < .3:
        # Every entry differs, so that one entry in place of another shows.
        m, x = ('m', tuple(f32(e + rng.choice((0, .25, .5))) for e in rng.sample(range(-20, 20), 16))), num(float(rng.randint(-9, 9)))
        w = rng.choice((x, x, x, pick(rng, 'v'), ('m', tuple(float(e) for e in rng.sample(range(-20, 20), 16)))))
        return ([m, w] if rng.random() < .5 else [w, m])[:n]
    if rng.random() < .3:
        return ([pick(rng, 'v'), pick(rng, 'n')] if rng.random() < .5 else [pick(rng, 'n'), pick(rng, 'v')])[:n]
    return [value(rng) for _ in range(n)]


def run_table(ctx, rng):
    names = rng.sample(sorted(KINDOF), 24)
    text = '\n'.join(f for f in FUNCS if f[5:f.index('(')] in names)
    calls = []
    for nm in names:
        for _ in range(5):
            calls.append((nm, operands(rng, KINDOF[nm], ARITY[nm])))
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')]
    ops += [('callret', 'r', 'm', 'f_' + nm) + tuple(enc(v) for v in a) for nm, a in calls]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.violation('C07-load', 'a program with one operator per function was rejected: %s\n%s' % (ld and ld[0][2][1], text), ops)
        return
    ends = [e for e in rep.events if e[0] in ('end', 'panic')]
    for (nm, a), e in zip(calls, ends):
        kind = KINDOF[nm]
        what = '%s on %s' % (nm, ', '.join(show(v) for v in a))
        try:
            if kind[0] == 'bin':
                exp, tol = binop(kind[1], *a)
            elif kind[0] == 'asg':
                exp, tol = assign(kind[1], *a)
            elif kind[0] == 'un':
                exp, tol = unop(kind[1], a[0])
            else:
                exp, tol = func(kind[1], a)
        except NoDef:
            exp = None
        except (Skip, OverflowError):
            ctx.cov['no_claim'] += 1
            continue
        if e[0] == 'panic':
            ctx.violation('C07-crash', '%s crashed: %s' % (what, e[1][1]), ops)
            return
        got = e[2] if e[1][1] == 'ok' else None
        if (exp is None) != (got is None) or (exp is not None and not ok(exp, tol, got)):
            ctx.violation('C07-' + nm, '%s: expected %s, observed %s' % (
                what, 'an error' if exp is None else show(exp), show(e[2])), ops)
        ctx.seen((nm, repr(a), repr(got)))
        ctx.kind('operation', nm)
        ctx.kind('types', nm + ' ' + ' '.join(v[0] for v in a))
        ctx.cov['errors_expected' if exp is None else 'values_compared'] += 1


# -- operator chains
class Chain:
    def __init__(self, rng, env):
        self.r, self.env = rng, env

    def atom(self, d):
        r = self.r
        if d > 0 and r.random() < .25:
            t, v = self.add(d - 1)
            return '(%s)' % t, v
        if r.random() < .3:
            x = r.choice((0, 1, 2, 3, 0.5, 10))
            return repr(x), float(x)
        k = r.choice('abcd')
        return k, self.env[k]

    def factor(self, d, neg=True):
        r = self.r
        x = r.random()
        if neg and x < .15:
            t, v = self.factor(d)
            return '-' + (' ' if r.random() < .3 else '') + t, -v
        if x < .35:
            (t, v), (u, w) = self.atom(d), self.atom(d)
            return t + r.choice(('^', ' ^ ')) + u, arith('^', v, w)
        return self.atom(d)

    def mul(self, d):
        r = self.r
        t, v = self.factor(d)
        for _ in range(r.choice((0, 0, 1, 2, 3))):
            o = r.choice('**/%')
            u, w = self.factor(d)
            t += r.choice((o, ' %s ' % o)) + u
            v = arith(o, v, w)
        return t, v

    def add(self, d):
        r = self.r
        t, v = self.mul(d)
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            o = r.choice('+-')
            u, w = self.mul(d)
            t += r.choice((o, ' %s ' % o)) + u
            v = arith(o, v, w)
        return t, v

    def batom(self, d):
        r = self.r
        x = r.random()
        if x < .2:
            t, v = self.batom(d)
            return r.choice('!¬') + t, not v
        if d > 0 and x < .55:
            t, v = self.badd(d - 1)
            return '(%s)' % t, v
        if d > 0 and x < .75:
            o = r.choice(('<', '<=', '>', '>=', '==', '!='))
            (t, v), (u, w) = self.atom(0), self.add(0)
            return '(%s %s %s)' % (t, o, u), {'<': v < w, '<=': v <= w, '>': v > w, '>=': v >= w, '==': v == w, '!=': v != w}[o]
        if x < .8:
            v = r.random() < .5
            return str(v).lower(), v
        k = r.choice('pq')
        return k, self.env[k]

    def bmul(self, d):
        r = self.r
        t, v = self.batom(d)
        if r.random() < .15:
            u, w = self.batom(d)
            t, v = t + r.choice((' ^ ', ' xor ', ' ⊻ ')) + u, v != w
        for _ in range(r.choice((0, 0, 1, 2))):
            u, w = self.batom(d)
            t += r.choice((' * ', ' && ', ' and ', ' ∧ ')) + u
            v = v and w
        return t, v

    def badd(self, d):
        r = self.r
        t, v = self.bmul(d)
        for _ in range(r.choice((0, 0, 1, 2))):
            o = r.choice(('+', '||', 'or', '∨', '-'))
            u, w = self.bmul(d)
            t += ' %s ' % o + u
            v = v and not w if o == '-' else v or w
        return t, v


def run_chain(ctx, rng):
    env = {k: rng.choice((0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 7.0, -4.0)) for k in 'abcd'}
    env.update({k: rng.random() < .5 for k in 'pq'})
    ch = Chain(rng, env)
    fns, exps = [], []
    for i in range(12):
        if rng.random() < .65:
            t, v = ch.add(2)
            fns.append('fn g%d(a: f64, b: f64, c: f64, d: f64, p: bool, q: bool) -> f64 {\n    r := %s\n    return clone(r)\n}\n' % (i, t))
            exps.append((t, num(v), 'rel' if '^' in t else 0))
        else:
            t, v = ch.badd(2)
            fns.append('fn g%d(a: f64, b: f64, c: f64, d: f64, p: bool, q: bool) -> bool {\n    r := %s\n    return clone(r)\n}\n' % (i, t))
            exps.append((t, boolean(v), 0))
    text = '\n'.join(fns)
    args = tuple(enc(num(env[k])) for k in 'abcd') + tuple(enc(boolean(env[k])) for k in 'pq')
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')] + [('callret', 'r', 'm', 'g%d' % i) + args for i in range(12)]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.violation('C07-chain-load', 'operator chains were rejected: %s\n%s' % (ld and ld[0][2][1], text), ops)
        return
    for (t, exp, tol), e in zip(exps, rep.of('end')):
        if e[1][1] != 'ok' or not ok(exp, tol, e[2]):
            ctx.violation('C07-chain', '%s with %r: expected %s, observed %s' % (t, env, show(exp), show(e[2])), ops)
        ctx.seen((t, repr(env)))
        ctx.cov['chains_compared'] += 1


# -- literals, swizzling
def run_vec(ctx, rng):
    u = [float(rng.randint(-9, 9)) for _ in range(4)]
    v = [float(rng.randint(-9, 9)) for _ in range(4)]
    L, exps = [], []

    def comp(n, fn=False):
        """Text for arguments that give n numbers, and the numbers."""
        t, x = [], []
        while len(x) < n:
            k = n - len(x)
            if k >= 2 and rng.random() < .6:
                m = rng.randint(2, k)
                sw = ''.join(rng.choice('xyzw') for _ in range(m))
                s, w = rng.choice((('u', u), ('v', v)))
                t.append(sw + ' ' + s)
                x += [w['xyzw'.index(c)] for c in sw]
            elif rng.random() < .5:
                s, w = rng.choice((('u', u), ('v', v)))
                i = rng.randrange(4)
                t.append('%s(%s)' % ('xyzw'[i], s))
                x.append(w[i])
            else:
                y = rng.randint(-5, 9)
                t.append(str(y))
                x.append(float(y))
        return t[0] + ',' if len(t) == 1 and not fn else ', '.join(t), x
    for i in range(10):
        y = rng.random()
        if y < .4:
            n = rng.randint(2, 4)
            t, x = comp(n)
            t = '(' + t + ')'
            exp = ('v', tuple((x + [0.0] * 4)[:4]))
        elif y < .6:
            n = rng.randint(2, 4)
            t, x = comp(n, True)
            t = 'h%d(%s)' % (n, t)
            exp = ('a', tuple(num(q) for q in x))
        elif y < .85:
            rows, ts = [], []
            for k in range(rng.randint(2, 4)):
                if rng.random() < .3:
                    s, w = rng.choice((('u', u), ('v', v)))
                    ts.append(s)
                    rows.append(w)
                else:
                    t, x = comp(rng.randint(2, 4))
                    ts.append(t)
                    rows.append((x + [0.0] * 4)[:4])
            t = 'mat4 {' + '; '.join(ts) + '}'
            for k in range(len(rows), 4):
                rows.append([float(j == k) for j in range(4)])
            exp = ('m', tuple(rows[r][c] for c in range(4) for r in range(4)))
        else:
            c = [rng.randrange(256) for _ in range(rng.choice((3, 4)))]
            t = '#' + ''.join('%02x' % q for q in c)
            if len(c) == 3:
                c.append(255)
            exp = ('v', tuple(f32(f32(q) / 255.0) for q in c))
        L.append('fn k%d(u, v) -> {\n    return %s\n}\n' % (i, t))
        exps.append((t, exp))
    text = ('h2(a: f64, b: f64) = [clone(a), clone(b)]\n\nh3(a: f64, b: f64, c: f64) = [clone(a), clone(b), clone(c)]\n\n'
            'h4(a: f64, b: f64, c: f64, d: f64) = [clone(a), clone(b), clone(c), clone(d)]\n\n' + '\n'.join(L))
    args = (enc(('v', tuple(u))), enc(('v', tuple(v))))
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')] + [('callret', 'r', 'm', 'k%d' % i) + args for i in range(10)]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.violation('C07-vec-load', 'vector expressions were rejected: %s\n%s' % (ld and ld[0][2][1], text), ops)
        return
    for (t, exp), e in zip(exps, rep.of('end')):
        if e[1][1] != 'ok' or not (ok(exp, 1e-6, e[2]) if exp[0] in 'vm' else same(exp, e[2])):
            ctx.violation('C07-vec', '%s with u %r v %r: expected %s, observed %s' % (t, u, v, show(exp), show(e[2])), ops)
        ctx.seen((t, repr(u), repr(v)))
        ctx.cov['vector_expressions_compared'] += 1


def case(ctx, rng, i):
    x = i % 5
    if x < 3:
        run_table(ctx, rng)
    elif x == 3:
        run_chain(ctx, rng)
    else:
        run_vec(ctx, rng)
