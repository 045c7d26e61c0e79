"""C21: failures of scripts are reported as errors."""
import gram
import stdlib
from wire import enc, show, num, st, boolean

PLAN = {'quick': (3000, 300, 300), 'thorough': (50000, 6000, 2400)}
RULE = ('Every library function, operator, indexing form, loop, unwrapping and assignment with values of every type the loader cannot see, and whole random '
        'programs of this kind; run by the real interpreter. Non-trivial: the run ended and its outcome was recorded; distinct by program.')
TECHNIQUE = 'crash and balance monitor around the real interpreter; the runtime and the process are used again after each failure and must work as before'
NOTE = 'Unbounded recursion, exhausted memory and closed standard output are outside the generated programs.'


VAL = ('0', '1', '-1', '2', '3.5', '1e10', '-1e300', '0 / 0', '1 / 0', '-1 / 0', '4294967296', '9007199254740993', 'true', 'false', '""', '"a"', '"é€𝕏"', '"k"', '"12"', '"1e5"', '"\\\\u"', '[]',
       '[1, 2, 3]', '["a", "b"]', '[[1], [2]]', '[[0, 0, "a"]]', '[[1, 2, "start", "x"]]', '[none(), some(2)]', '[0 / 0, 1]', '[true, false]', '{}', '{k: 1, x: [2]}', '{a: "b"}', 'none()',
       'some(1)', 'some("a")', 'ok("a")', 'ok(1)', 'err("e")', 'err(5)', '(1, 2)', '(0, 0, 0, 0)', '(0 / 0, 1 / 0)', 'link { }', 'link { 1 "a" true }', 'link { "a" }',
       'mat4 {1,2,3,4; 5,6,7,8; 9,10,11,12; 13,14,15,16}', 'mat4 {0,0,0,0; 0,0,0,0; 0,0,0,0; 0,0,0,0}', '#ff00aa', 'CLO0', 'CLO1', 'CLO2', 'THR', 'RECV', 'explain_why(true, "w")',
       'explain_where(2, 1)', 'robj(3)')


# At and around the sizes of the collections above, and of the types of the host.
NUMS = ('0', '1', '2', '3', '4', '5', '15', '16', '17', '-1', '-0.5', '0.5', '2.5', '3.5', '123', '124', '125', '255', '256', '2147483647', '2147483648', '4294967295', '18446744073709551615',
        '18446744073709551616', '0 / 0', '1 / 0')


def value(r):
    s = r.choice(VAL)
    return {'CLO0': '\\() = 1', 'CLO1': '\\(q: any) = blur(q)', 'CLO2': '\\(q: any, p: any) = blur(q)', 'THR': 'go thr()', 'RECV': 'in thr2'}.get(s, s)


def fit(t, v):
    k = t.split('[')[0] if t[0] != '[' else '['
    return {'f64': v[0] in '0123456789-', 'str': v[0] == '"', 'bool': v in ('true', 'false'), 'vec4': v[0] in '(#', 'mat4': v.startswith('mat4'), '[': v[0] == '[', '{}': v[0] == '{',
            'opt': v.startswith(('some', 'none')), 'res': v.startswith(('ok', 'err')), 'link': v.startswith('link'), 'thr': v.startswith('go'), 'in': v.startswith('in '),
            'sec': v.startswith('explain')}.get(k, True)


HEAD = 'fn thr() -> any {\n    return 5\n}\nfn thr2(x: any) { }\nfn mod() -> any {\n    m := module(in: "in", string: "fn sum2(a, b) -> { return a + b }\\nfn thr2(x: f64) { }\\nfn muta(mut x) { x = 5 }\\n", imports: [])\n    return unwrap(m)\n}\n'


class P:
    def __init__(self, r):
        self.r, self.ls, self.n = r, [], 0

    def v(self, t='any'):
        self.n += 1
        v = value(self.r)
        if t == 'f64' and self.r.random() < .6:
            v = self.r.choice(NUMS)
        for _ in range(60 if t != 'any' and self.r.random() < .7 else 0):
            if fit(t, v):
                break
            v = value(self.r)
        self.ls.append('a%d := blur(%s)' % (self.n, v))
        return 'a%d' % self.n


SKIP = ('read_', 'load_string__url', 'load__meta_url', 'download', 'sleep', 'print', 'eprint', 'debug', 'wait', 'args_os', 'backtrace')
FNS = [s for s in stdlib.SIGS if not s[0].startswith(SKIP)]
OPS = ('+', '-', '*', '/', '%', '^', '&&', '||', 'x', '·', '==', '!=', '<', '<=', '>', '>=')


def library(r, p):
    name, args, ret = r.choice(FNS)
    bare, _, marks = name.partition('(')
    marks = marks[:-1].split(',') if marks else ['_'] * len(args)
    es = []
    for t, m in zip(args, marks):
        # Mostly values of the right type for most of the arguments.
        v = p.v(t)
        es.append(('mut ' + v) if m == 'mut' else r.choice((v, v, '%s' % v)))
    w, _, ns = bare.partition('__')
    call = '%s(%s)' % (w, ', '.join('%s: %s' % z for z in zip(ns.split('_'), es))) if ns else '%s(%s)' % (bare, ', '.join(es))
    p.ls.append(call if ret == 'void' else 'z := ' + call)
    if ret != 'void' and bare not in ('functions', 'now', 'random', 'none'):
        p.ls.append('emit(typeof(z))')
    return bare


def operator(r, p):
    a, b, o = p.v(), p.v(), r.choice(OPS)
    k = r.randint(0, 5)
    if k == 0:
        o = r.choice(('-', '!', '|'))
        p.ls.append('z := %s%s%s' % (o, a, '|' if o == '|' else ''))
    elif k == 1:
        o = r.choice(('=', '+=', '-=', '*=', '/=', '%=', '^='))
        p.ls.append('%s %s %s' % (a, o, b))
        p.ls.append('z := 1')
    else:
        p.ls.append('z := %s %s %s' % (a, o, b))
    p.ls.append('emit(typeof(z))')
    return 'op ' + o


def index(r, p):
    a, b, c = p.v(), p.v(), p.v()
    path = r.choice(('[%s]' % b, '.k', '[0]', '[5]', '["k"]', '[%s][%s]' % (b, c), '.x[%s]' % b, '[%s].k' % b, '[0]?', '.k?', '[%s]?' % b, '.x[0]?.k'))
    k = r.randint(0, 5)
    if '?' in path and k > 1:
        path = path.replace('?', '')
    if k <= 1:
        p.ls.append('z := clone(%s%s)' % (a, path) if '?' not in path else 'z := %s%s' % (a, path))
    elif k <= 3:
        p.ls.append('%s%s %s %s' % (a, path, r.choice(('=', ':=', '+=', '-=', '*=', '/=', '%=', '^=')), c))
    elif k == 4:
        p.ls.append('push(mut %s%s, %s)' % (a, path, c))
    else:
        p.ls.append('q := \\%s%s(%s)' % (a, path, c))
    return 'index' + path.replace(a, '').translate({ord(x): None for x in '0123456789'})


def loops(r, p):
    a, b, c = p.v(), p.v(), p.v()
    k = r.choice(('sum', 'prod', 'min', 'max', 'any', 'all', 'sift', 'for', 'link', 'sum_vec4', 'prod_vec4'))
    rng = r.choice(('i 3', 'i %s' % small(p, a), 'i [%s, %s)' % (small(p, a), small(p, b)), 'i in %s' % a, 'i [0, 3)', 'i 2, j 2', 'i in %s' % c))
    if k.endswith('vec4') and ' in ' in rng:
        k = 'sum'
    if k == 'for':
        p.ls.append('for %s {\n    w := blur(%s)\n%s}' % (rng, b, r.choice(('', '    break\n', '    continue\n', '    emit(1)\n'))))
        if 'a' in rng[2:] and ' in ' not in rng:
            p.ls[-1] = p.ls[-1][:-1] + '    break\n}'
    elif k == 'link':
        p.ls.append('z := link %s { %s }' % (rng, b))
    else:
        brk = r.choice(('', '', '', '    if blur(true) {\n        break\n    }\n'))
        p.ls.append('z := %s %s {\n    w := 1\n%s    %s\n}' % (k, rng, brk, r.choice((b, c, 'blur(%s)' % value(r)))))
    return 'loop ' + k + ' ' + rng.split(' ')[1][:2]


def small(p, a):
    """Not a range that takes for ever."""
    k = [j for j, l in enumerate(p.ls) if l.startswith(a + ' :=')][0]
    if p.ls[k].split('(')[1].split(')')[0] in ('1e10', '4294967296', '9007199254740993', '1 / 0', '-1e300', '-1 / 0'):
        p.ls[k] = '%s := blur(-2.5)' % a
    return a


def others(r, p):
    a, b, c = p.v(), p.v(), p.v()
    k = r.randint(0, 19)
    s = ['if %s {\n    w := 1\n}' % a, 'z := %s?' % a, 'z := \\%s(%s)' % (a, b), 'z := \\%s()' % a, 'z := (%s, %s, %s)' % (a, b, c), 'z := vec4 i %s' % a, 'z := mat4 {%s; %s; %s; %s}' % (a, b, c, a),
         'z := swz(xyzw %s)' % a, 'z := link { %s %s }' % (a, b), 'z := [%s; %s]' % (a, small(p, b)) if r.random() < .8 else 'z := [1; 1 / 0]', 'z := {k: %s, x: %s}' % (a, b), 'z := unwrap(join(thread: %s))' % a,
         'sleep(blur(%s))' % r.choice(('-1', '0 / 0', '"a"', '0', '-1e300', '0.0001')), 'z := call_ret(mod(), %s, [%s, %s])' % (r.choice((a, '"thr"', '"thr2"', '"nope"', '"len"', '"sum2"')), b, c),
         'call(mod(), %s, %s)' % (r.choice((a, '"thr"', '"thr2"', '"push(mut,_)"', '"nope"', '"sum2"', '"muta(mut)"')), r.choice((b, '[]', '[%s]' % b, '[%s, %s]' % (b, c)))),
         'for i := %s; i < %s; i += 1 {\n    break\n}' % (a, b), 'z := if %s { %s } else { %s }' % (a, b, c), 'z := unwrap(%s)' % a, 'z := \\%s.k(%s)' % (a, b), 'z := vec4 i blur(%s)' % b][k]
    p.ls.append(s)
    return 'other %d' % k


GEN = (library, library, library, library, operator, operator, index, index, loops, others)
TAIL = 'fn swz(v: any) -> any {\n    return clone(v)\n}\nfn swz(a: any, b: any, c: any, d: any) -> any {\n    return [a, b, c, d]\n}\n'


def program(r):
    p = P(r)
    k = GEN[r.randrange(len(GEN))](r, p)
    return HEAD + 'fn t() -> any {\n%s\n    return blur(1)\n}\n' % '\n'.join('    ' + l for x in p.ls for l in x.split('\n')), [('t', True)], k


BATCH = 20
CANARY = 'fn canary() -> any {\n    a := [1, 2, 3]\n    return sum i len(a) { a[i] }\n}\n'


def case(ctx, rng, i):
    js = []
    for _ in range(BATCH):
        if rng.random() < .25:
            t, z = gram.Smart(rng).program()
            if gram.deepest(t) > 6 or not z:
                continue
            js.append((t, z, 'program'))
        else:
            js.append(program(rng))
    ops = [('limit', 20000), ('mod', 'c'), ('load', 'c', 'c.dyon', CANARY), ('rt', 'r')]
    for k, (t, z, kd) in enumerate(js):
        ops += [('mod', 'm%d' % k), ('load', 'm%d' % k, 'a.dyon', t)]
        ops += [('callret' if ret else 'call', 'r', 'm%d' % k, f) for f, ret in z]
        ops += [('callret', 'r', 'c', 'canary')]
    rep = ctx.run(ops)
    bad = [e for e in rep.events if e[0] in ('panic', 'abort', 'unbal', 'badref')]
    if rep.died or bad:
        for t, z, kd in js:
            one = [('limit', 20000), ('mod', 'c'), ('load', 'c', 'c.dyon', CANARY), ('rt', 'r'), ('mod', 'm'), ('load', 'm', 'a.dyon', t)]
            one += [('callret' if ret else 'call', 'r', 'm', f) for f, ret in z] + [('callret', 'r', 'c', 'canary')]
            rep = ctx.run(one)
            bad = [e for e in rep.events if e[0] in ('panic', 'abort', 'unbal', 'badref')]
            if rep.died in ('hang', 'blocked'):
                ctx.inconclusive('slow', t)
            elif rep.died or bad:
                ctx.violation('C21 crash', 'a run ended with %s\n%s' % (rep.died or [show(x) for x in bad[0][1:]] + [bad[0][0]], t), one)
        return
    cur = None
    parts = []
    for e in rep.events:
        if e[0] == 'load':
            cur = []
            parts.append(cur)
        if cur is not None:
            cur.append(e)
    for (t, z, kd), ev in zip(js, parts[1:]):
        ctx.cov['accepted' if ev[0][1][1] == 'ok' else 'rejected'] += 1
        if ev[0][1][1] != 'ok':
            continue
        ends = [e for e in ev if e[0] == 'end']
        if len(ends) != len(z) + 1:
            ctx.inconclusive('ends missing', repr(ev)[:300])
            continue
        ctx.seen(t, True)
        ctx.kind('construct', kd)
        for e in ends[:-1]:
            ctx.cov['results' if e[1][1] == 'ok' else 'errors'] += 1
        c = ends[-1]
        if c[1][1] != 'ok' or '6.0' not in ' '.join(show(x) for x in c[1:]):
            ctx.violation('C21 canary', 'after the run another script gave %s\n%s' % ([show(x) for x in c[1:]], t), ops)
