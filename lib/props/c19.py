"""C19: only places declared mutable are mutated through arguments."""
from wire import show, num
from wrapping import nested, fn, recv

PLAN = {'quick': (1500, 300, 300), 'thorough': (60000, 6000, 2400)}
RULE = ('Functions that assign to, or pass on as mutable, an argument or current object at a random item path, declared `mut` or not, under '
        'shadowing locals and loop variables and at random nesting; calls (plain, named, imported, aliased, spawned, library) with random marks '
        'against random declarations; and programs whose callees mutate marked arguments and copies of unmarked ones, with all variables '
        'of the caller observed before and after. Non-trivial: a verdict or a caller state was compared; distinct by program.')
TECHNIQUE = ('loader verdict compared with the declared mutability; state of every variable of the caller observed before and after calls and '
             'compared with what the callee saw')
NOTE = ('A reference stored by the callee in a container of its own (`m := [n]`) is outside the generated programs; it is probed separately as a '
        'known finding.')

# Item path, initial value for which the path is an array holding an array.
PATHS = ('', '[0]', '.k', '.k[0]', '[0].k', '["k"]', '[i]', '.k[i]', '[i].k', '.k.z[0]', '[1][0].k')


def site(r):
    """A mutation of the place n."""
    decl = r.random() < .5
    mu = 'mut ' if decl else ''
    hold = r.choice(('arg', 'arg', 'second', 'cur', 'cur2', 'named', 'closure', 'local'))
    path = r.choice(PATHS)
    ops = ['n%s = 1', 'n%s += 1', 'n%s -= 1', 'n%s *= 2', 'n%s /= 2', 'n%s %%= 2', 'n%s ^= 2', 'push(mut n%s, 1)', 'pop_(mut n%s)', 'insert(mut n%s, 0, 1)',
           'swap(mut n%s, 0, 1)', 'set(mut n%s)', 'set2(1, mut n%s)', 'set3(mut n%s, 2)', 'set(v: mut n%s)', 'clear(mut n%s)',
           'reverse(mut n%s)', 'zz := ret(mut n%s)', 'tt := go ret(mut n%s)', 'zz := 1 + ret(mut n%s)',
           'zz := [ret(mut n%s)]', 'zz := sum j 2 { ret(mut n%s) }', 'if ret(mut n%s) > 3 {\n    w := 1\n}', 'zz := \\(q: f64) = q + ret(mut n%s)' if hold == 'closure' else
           'zz := some(ret(mut n%s))']
    if path:
        ops += ['n%s := 1'] * 2
    op = r.choice(ops)
    op = ('zz := pop(mut n%s)' if op.startswith('pop_') else op) % path
    pre, post, ok = [], [], decl
    if '[i]' in path:
        pre.append('i := 0')
    x = r.random()
    if x < .3 and hold != 'closure':
        # Shadowing.
        s, k = r.choice(((['n := clone(n)', op], True), (['n := [1]', op], True), (['if true {', '    n := 1', '    n = 2', '}', op], None),
                         (['for n 2 {', '    n = 2', '}', op], None), (['for n 2 {', '    w := n', '}', op], None),
                         (['for i7 2 {', '    n := i7', '}', op], None), (['m := n', op.replace('mut n', 'mut m').replace('n' + path + ' ', 'm' + path + ' ', 1) if op.startswith('n') else op.replace('mut n', 'mut m')], True),
                         (['n2 := 1', op], None), (['m := {', '    n := 3', '    n + 1', '}', op], None)))
        body = s
        if k:
            ok = True
    else:
        body = [op]
    body = pre + nested(r, body)
    t = ('fn set(mut v: any) { v = 1 }\nfn set2(a: f64, mut v: any) { v = 1 }\nfn set3(mut v: any, a: f64) { v = 1 }\nfn set__v(mut v: any) { v = 1 }\n'
         'fn ret(mut v: any) -> f64 {\n    v = 1\n    return 1\n}\n')
    if r.random() < .3:
        # The same name with the other mutability elsewhere.
        t += 'fn other(%sn: any, m: any) { }\n' % ('' if decl else 'mut ')
    if hold == 'arg':
        h = fn('fn h(%sn: any)' % mu, body)
    elif hold == 'second':
        h = fn('fn h(%sm: any, %sn: any)' % ('' if decl else 'mut ', mu), body)
    elif hold == 'named':
        h = fn('fn h__a_b(%sm: any, %sn: any)' % ('' if decl else 'mut ', mu), body)
    elif hold == 'cur':
        h = fn('fn h() ~ %sn: any' % mu, body)
    elif hold == 'cur2':
        h = fn('fn h(%sb: any) ~ %sm: any, %sn: any' % ('' if decl else 'mut ', '' if decl else 'mut ', mu), body)
    elif hold == 'local':
        h, ok = fn('fn h(%sm: any)' % mu, ['n := [1]'] + body), True
    else:
        # The parameter of a closure cannot be declared mutable.
        h = fn('fn h(%sn: any)' % mu if r.random() < .5 else 'fn h(%sm: any)' % mu,
               ['c := \\(n: any) = {'] + ['    ' + l for b in body for l in b.split('\n')] + ['    1', '}'])
        ok = False
    return t + h, ok, '`%s` with `%sn` (%s)' % (op, mu, hold), None, hold


LIB = (('push', '10'), ('push_ref', '10'), ('insert', '100'), ('insert_ref', '100'), ('pop', '1'), ('remove', '10'), ('swap', '100'), ('reverse', '1'),
       ('clear', '1'), ('clone', '0'), ('len', '0'), ('some', '0'), ('has', '00'), ('keys', '0'), ('typeof', '0'), ('sqrt', '0'), ('min', '0'))
LIBRET = ('pop', 'remove', 'clone', 'len', 'some', 'has', 'keys', 'typeof', 'sqrt', 'min')


def marks(r):
    """The marks of a call against the declaration."""
    k = r.randint(1, 4)
    d = [r.random() < .5 for _ in range(k)]
    m = list(d)
    x = r.random()
    if x < .35:
        i = r.randrange(k)
        m[i] = not m[i]
    elif x < .45:
        m = [r.random() < .5 for _ in range(k)]
    elif x < .5:
        r.shuffle(m)
    form = r.choice(('plain', 'plain', 'expr', 'named', 'alias', 'aliaslist', 'import', 'go', 'goalias', 'lib', 'cur', 'both'))
    vs = ['a', 'b', 'c', 'd'][:k]
    init = ['%s := [%s, 2]' % (v, v == 'a' and 1 or 3) for v in 'abcd']
    if form == 'lib':
        f, d = r.choice(LIB)
        d = [c == '1' for c in d]
        m = list(d)
        if r.random() < .5:
            i = r.randrange(len(d))
            m[i] = not m[i]
        args = ', '.join(('mut ' if q else '') + v for q, v in zip(m, 'abcd'))
        t = fn('fn f()', init[::-1] + nested(r, [('zz := ' if f in LIBRET else '') + '%s(%s)' % (f, args)]))
        # Types of the arguments are not the point here.
        t = t.replace('[1, 2]', 'blur(1)').replace('[3, 2]', 'blur(1)')
        return t, m == d, 'call `%s(%s)`' % (f, args), None, form
    params = ', '.join('%sp%d: any' % ('mut ' if q else '', j) for j, q in enumerate(d))
    args = ', '.join(('mut ' if q else '') + v for q, v in zip(m, vs))
    body = ['push(mut p%d, 5)' % j for j, q in enumerate(d) if q]
    run = ([5 if q else None for q in d])
    name = 'g' if form != 'named' else 'g__' + '_'.join('n%d' % j for j in range(k))
    if form == 'named':
        args = ', '.join('n%d: %s%s' % (j, 'mut ' if q else '', v) for j, (q, v) in enumerate(zip(m, vs)))
    g = fn('fn %s(%s)%s' % (name, params, ' -> f64' if form in ('expr', 'go', 'goalias') else ' ~ zc: any' if form == 'cur' else ''),
           body + (['return 1'] if form in ('expr', 'go', 'goalias') else []))
    if form == 'both':
        # Functions differ by their marks: both exist.
        d2 = [not q for q in d]
        p2 = ', '.join('%sp%d: any' % ('mut ' if q else '', j) for j, q in enumerate(d2))
        g += fn('fn g(%s)' % p2, ['push(mut p%d, 6)' % j for j, q in enumerate(d2) if q])
        ok = m in (d, d2)
        run = [5 if q else None for q in d] if m == d else [6 if q else None for q in d2]
    else:
        ok = m == d
    call = {'plain': ['g(%s)'], 'named': ['g(%s)'], 'expr': ['zz := 1 + g(%s)'], 'alias': ['al::g(%s)'], 'aliaslist': ['al::gg(%s)'], 'import': ['g(%s)'],
            'go': ['tt := go g(%s)', 'zz := join(thread: tt)'], 'goalias': ['tt := go al::g(%s)', 'zz := join(thread: tt)'], 'cur': ['~ zc := 1', 'g(%s)'],
            'both': ['g(%s)']}[form]
    call = [c % args if '%s' in c else c for c in call]
    if form in ('go', 'goalias'):
        run = None
    f = fn('fn f()', init + nested(r, call) + ['emit(%s)' % v for v in vs])
    if run is not None:
        run = [[1 if v == 'a' else 3, 2] + ([q] if q else []) for q, v in zip(run, vs)]
    d_ = 'call `%s` of `g(%s)` (%s)' % (call[-1] if form[:2] != 'go' else call[0], params, form)
    if form in ('alias', 'aliaslist', 'import', 'goalias'):
        head = {'alias': 'use nn as al\n', 'goalias': 'use nn as al\n', 'aliaslist': 'use nn::{g as gg} as al\n', 'import': ''}[form]
        return ('ns nn\n' + g, head + f), ok, d_, run, form
    return g + f, ok, d_, run, form


def val(r, d=2):
    x = r.random()
    if d == 0 or x < .2:
        return r.choice(('1', '2.5', '"s"', 'true', '(1, 2)'))
    if x < .6:
        return '[%s]' % ', '.join(val(r, d - 1) for _ in range(r.randint(1, 3)))
    if x < .9:
        return '{%s}' % ', '.join('%s: %s' % (k, val(r, d - 1)) for k in r.sample(('k', 'z', 'y'), r.randint(1, 3)))
    return r.choice(('some(%s)', 'ok(%s)')) % val(r, d - 1)


def parts(t):
    """Top-level items of a literal: [(path, text)]."""
    if t[0] not in '[{':
        return []
    out, lvl, cur = [], 0, ''
    for c in t[1:-1]:
        if c in '[{(':
            lvl += 1
        if c in ')}]':
            lvl -= 1
        if c == ',' and lvl == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    if t[0] == '[':
        return [('[%d]' % i, x) for i, x in enumerate(out)]
    return [('.' + x.split(':', 1)[0], x.split(':', 1)[1].strip()) for x in out]


def places(t, p=''):
    out = [(p, t)]
    for q, x in parts(t):
        out += places(x, p + q)
    return out


def mutate(r, n, t, way):
    """A statement that changes the place n holding a value like t; valid whatever ran before because it runs first."""
    p, x = r.choice(places(t))
    q = n + p
    ops = ['%s = %s' % (q, x), 'keep(mut %s)' % q]
    if x[0] == '[':
        ops += ['push(mut %s, 77)' % q, 'reverse(mut %s)' % q, 'clear(mut %s)' % q, 'zz := pop(mut %s)' % q, 'insert(mut %s, 0, "new")' % q,
                'swap(mut %s, 0, %d)' % (q, len(parts(x)) - 1), 'grow(mut %s)' % q, 'grow(2, mut %s)' % q] * 2
    elif x[0] == '{':
        ops += ['%s.new := 5' % q, '%s["n2"] := [6]' % q, 'field(mut %s)' % q] * 2
    elif x[0].isdigit():
        ops += ['%s += 3' % q, '%s *= 5' % q, '%s = 99' % q, 'num(mut %s)' % q] * 2 if '.' in x or x[0] != '(' else []
    elif x[0] == '"':
        ops += ['%s = "other"' % q, '%s += "more"' % q] * 2
    elif x[0] == '(':
        ops += ['%s = (7, 8)' % q, '%s += 1' % q] * 2
    elif x[0] == 't':
        ops += ['%s = false' % q] * 2
    # A whole value is replaced through `mut` places only, items of `mut` arguments are passed by copy.
    o = r.choice(ops)
    if p and ('mut ' + q) in o:
        return '%s = %s' % (q, x)
    return o


HELP = ('fn keep(mut v: any) { v = clone(v) }\nfn grow(mut v: any) { push(mut v, "g") }\nfn grow(n: f64, mut v: any) {\n    for i n {\n        push(mut v, i)\n    }\n}\n'
        'fn field(mut v: any) { v.f := 1 }\nfn num(mut v: any) { v += 100 }\nfn idc(v: any) -> any {\n    return clone(v)\n}\n')


def effects(r):
    """Callees that mutate marked arguments and copies of the others."""
    k = r.randint(1, 3)
    vals = [val(r) for _ in range(k)]
    d = [r.random() < .45 for _ in range(k)]
    body = []
    for j in range(k):
        for _ in range(r.randint(0, 2)):
            p = 'p%d' % j
            if d[j]:
                if not any(x.startswith('@' + p) for x in body):
                    body += ['@' + p] + nested(r, [mutate(r, p, vals[j], 'mut')])
                continue
            q, x = r.choice(places(vals[j]))
            m = 'm%d' % r.randint(0, 999)
            c = r.choice(('%s := %s' % (m, p + q), '%s := %s' % (m, p + q), '%s := clone(%s)' % (m, p + q), '%s := idc(%s)' % (m, p + q)))
            if r.random() < .2:
                x2 = '[%s]' % x
                c = '%s := [clone(%s)]' % (m, p + q)
                body += nested(r, [c, mutate(r, m, x2, 'copy')])
            elif r.random() < .15 and x[0] == '[':
                body += ['for j%s len(%s) {' % (m, p + q), '    %s := %s[j%s]' % (m, p + q, m), '    %s = clone(%s)' % (m, m), '    w%s := [1]' % m,
                         '    push(mut w%s, %s)' % (m, m), '    w%s[1] = clone(w%s[1])' % (m, m), '}']
            elif r.random() < .15:
                body += ['c%s := \\(u: any) = {' % m, '    %s := u' % m] + ['    ' + l for l in mutate(r, m, x, 'copy').split('\n')] + ['    1', '}',
                                                                                                                                 'w%s := \\c%s(%s)' % (m, m, p + q)]
            else:
                body += nested(r, [c, mutate(r, m, x, 'copy')])
    body = [b for b in body if b[0] != '@']
    ret = r.random() < .4
    tail = ['emit(["in", %d, clone(p%d)])' % (j, j) for j in range(k) if d[j]]
    if ret:
        tail.append('return %s' % r.choice(['clone(p%d)' % r.randrange(k), '1']))
    params = ', '.join('%sp%d: any' % ('mut ' if q else '', j) for j, q in enumerate(d))
    t = HELP + fn('fn g(%s)%s' % (params, ' -> any' if ret else ''), body + tail)
    args = ', '.join('%sv%d' % ('mut ' if q else '', j) for j, q in enumerate(d))
    form = r.choice(('direct', 'direct', 'via', 'loop'))
    if form == 'via':
        t += fn('fn g2(%s)%s' % (params.replace('p', 'v'), ' -> any' if ret else ''), ['return g(%s)' % args if ret else 'g(%s)' % args])
    name = 'g2' if form == 'via' else 'g'
    call = ('rr := ' if ret else '') + '%s(%s)' % (name, args)
    main = ['v%d := %s' % (j, v) for j, v in enumerate(vals)] + ['emit(["pre", %d, clone(v%d)])' % (j, j) for j in range(k)]
    main += nested(r, [call] + [])
    main += ['emit(["post", %d, clone(v%d)])' % (j, j) for j in range(k)]
    return t + fn('fn f()', main), True, 'effects of %s' % call, ('effects', d), 'effects'


PROBE = [('array', 'fn h(n: any) {\n    m := [n]\n    m[0][0] = 3\n}\n'),
         ('object', 'fn h(n: any) {\n    m := {k: n}\n    m.k[0] = 3\n}\n'),
         ('push_ref', 'fn h(n: any) {\n    m := []\n    push_ref(mut m, n)\n    m[0][0] = 3\n}\n')]

GENS = (site, site, site, marks, marks, effects, effects)
BATCH = 14


def loading(m, t):
    t = tuple(map(recv, t)) if isinstance(t, tuple) else recv(t)
    if isinstance(t, tuple):
        return [('mod', m + 'l'), ('load', m + 'l', 'lib.dyon', t[0]), ('mod', m), ('import', m, m + 'l'), ('load', m, 'a.dyon', t[1])]
    return [('mod', m), ('load', m, 'a.dyon', t)]


def probes(ctx):
    for name, h in PROBE:
        t = h + 'fn f() {\n    a := [1, 2]\n    h(a)\n    emit(a)\n}\n'
        ops = loading('m', t) + [('rt', 'r'), ('call', 'r', 'm', 'f')]
        rep = ctx.run(ops)
        got = [e[1] for e in rep.events if e[0] == 'e']
        if got and got != [('a', [num(1), num(2)])]:
            ctx.violation('stored-reference-' + name, 'an unmarked argument was changed through a reference stored in a container\n' + t, ops)


def case(ctx, rng, i):
    if i == 0:
        probes(ctx)
    jobs = [GENS[(i + k) % len(GENS)](rng) for k in range(BATCH)]
    ops = []
    for k, (t, ok, d, run, kd) in enumerate(jobs):
        ops += loading('m%d' % k, t)
        if run is not None and ok:
            ops += [('rt', 'r'), ('call', 'r', 'm%d' % k, 'f')]
    rep = ctx.run(ops)
    if rep.died:
        ctx.inconclusive('process ' + rep.died)
        return
    ps, cur, lib = [], None, [x for j in jobs for x in ([True, False] if isinstance(j[0], tuple) else [False])]
    for e in rep.events:
        if e[0] == 'load' and lib.pop(0):
            if e[1][1] != 'ok':
                ctx.inconclusive('library rejected', show(e[2]))
                return
        elif e[0] == 'load':
            cur = []
            ps.append((e, cur))
        elif cur is not None:
            cur.append(e)
    if len(ps) != len(jobs):
        ctx.inconclusive('loads missing', repr(rep.events[-3:])+repr(ops[-9:]))
        return
    for (t, ok, d, run, kd), (ld, ev) in zip(jobs, ps):
        acc = ld[1][1] == 'ok'
        one = loading('m', t) + [('rt', 'r'), ('call', 'r', 'm', 'f')]
        t = t if isinstance(t, str) else '\n// ----\n'.join(t)
        if acc != bool(ok):
            ctx.violation('C19', '%s: the program was %s\n%s\n%s' % (d, 'accepted' if acc else 'rejected', '' if acc else show(ld[2], 500), t), one)
            continue
        ctx.seen(t, True)
        ctx.cov['accepted' if acc else 'rejected'] += 1
        ctx.kind('place', kd)
        ctx.sample('%s: %s\n%s' % (d, 'accepted' if acc else 'rejected', t))
        if not acc or run is None:
            if not acc:
                ctx.kind('rejections', show(ld[2], 200).split('\\n')[2][:40] if '\\n' in show(ld[2], 200) else '')
            continue
        err = [e for e in ev if e[0] == 'panic' or e[0] == 'end' and e[1][1] != 'ok']
        got = [e[1] for e in ev if e[0] == 'e']
        if err:
            ctx.inconclusive('run failed', show(err[0][2], 400) + t if len(err[0]) > 2 else t)
            continue
        ctx.cov['runs'] += 1
        check_run(ctx, t, d, run, got, one)


def check_run(ctx, t, d, run, got, one):
    if isinstance(run, tuple):
        pre, post, inn = {}, {}, {}
        for g in got:
            tag, j, v = g[1]
            {'pre': pre, 'post': post, 'in': inn}[tag[1]][int(j[1])] = v
        for j, v in post.items():
            q = run[1][j]
            want = inn[j] if q else pre[j]
            ctx.cov['marked' if q else 'unmarked'] += 1
            if q and want != pre[j]:
                ctx.cov['changed by the callee'] += 1
            if v != want:
                ctx.violation('C19', '%s: variable %s of the caller is %s after the call, expected %s (%s)\n%s' % (
                    d, j, show(v), show(want), 'the value in the callee' if q else 'the value before', t), one)
        return
    want = [('a', [num(x) for x in w]) for w in run]
    if [show(g) for g in got] != [show(w) for w in want]:
        ctx.violation('C19', '%s: variables of the caller are %s after the call, expected %s\n%s' % (
            d, [show(g) for g in got], [show(w) for w in want], t), one)
