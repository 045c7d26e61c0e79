"""C10: balance and reuse of a runtime."""
from gen import *
from model import *
import lang
from props import c11
import places
from wire import enc, num, st, show

PLAN = {'quick': (3000, 625, 300), 'thorough': (100000, 60000, 2400)}
RULE = ('Programs with probes of all four runtime stacks at statement boundaries, loops of every form left by break, continue, '
        'return and failures, calls ended early by lazy invariants, closures, current objects, try expressions, re-entry from '
        'host functions, and failures at random points; about eight host calls in a row, failing and succeeding, on one runtime. '
        'One case in five puts a fault or a `?` into one of about 120 places of an expression (lib/places.py). '
        'Non-trivial: more than two events.')
TECHNIQUE = 'state monitor: depths of all runtime stacks at probes and around host calls, and traces of later calls compared with a fresh model'
NOTE = ('Depths are read from the real runtime at each probe and compared with the number of variables in scope; host calls must '
        'leave all four depths and the module unchanged; later calls must behave as on a fresh runtime. Samples programs.')


def sprinkle(rng, ids, stmts, p=.35):
    """Adds probes at statement boundaries."""
    out = []
    for k, s in enumerate(stmts):
        last = k + 1 == len(stmts)
        if s[0] == 'if':
            # Only branches used as statements.
            if not last or s[2] is None:
                s = ('if', [(c, sprinkle(rng, ids, b, p)) for c, b in s[1]], None if s[2] is None else sprinkle(rng, ids, s[2], p))
        elif s[0] == 'forn' and s[1] == 'for' and not any(v[2][0] == 'infer' for v in s[3]):
            s = s[:4] + (sprinkle(rng, ids, s[4], p),)
        elif s[0] == 'for':
            s = s[:5] + (sprinkle(rng, ids, s[5], p),)
        elif s[0] == 'loop':
            s = s[:2] + (sprinkle(rng, ids, s[2], p),)
        if rng.random() < p:
            ids[0] += 1
            out.append(call('probe', lit(ids[0])))
        out.append(s)
    return out


def lazy_fn(rng, n):
    """A function that a lazy invariant ends early."""
    body = [call('emit_id', lit(900), item('b')), ('ret', ('bin', '+', item('a'), item('b')))]
    ps = [Param('a', 'f64'), Param('b', 'f64')]
    ps[rng.randrange(2)].lazy = [('lit', lit(rng.choice((0, 1, 2))))]
    return Fn('z%d' % n, ps, body, True, 'f64')


def place(ctx, rng, k):
    """A fault, or a `?`, in one of the places of an expression: caught or not, nothing of the call is left behind."""
    hole = rng.choice(('look(b)?', 'unwrap(look(b))', 'f1(unwrap(look(b)))', 'unwrap(look(b))', 'f1(xs[unwrap(look(b))])', 'f1(os[unwrap(look(b))].k)'))
    prop = hole.endswith('?')
    text, before, line = places.program(rng, k, hole, rng.choice(('t(b)', 'try t(b)')) if prop else 'try t(b)')
    good, bad = ('ok', num(1)), rng.choice((('err', st('m'), ()), ('?', None)) if prop else (('err', st('m'), ()), ('?', None), ('ok', st('q')), ('ok', num(9)))
                                         if '[' in hole else (('err', st('m'), ()), ('?', None)))
    calls = [('main', good), ('main', bad), ('t', bad), ('main', good), ('t', bad), ('main', bad), ('t', good)]
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')] + [('callret', 'r', 'm', f, enc(v)) for f, v in calls]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok':
        ctx.violation('C10-place-load', 'a program with a fault in an expression was rejected: %s\n%s' % (ld and ld[0][2][1], text), ops)
        return
    ctx.seen(text)
    ctx.kind('place', places.PLACES[k % len(places.PLACES)])
    runs, cur = [], []
    for e in rep.events:
        if e[0] in ('e', 'p', 'unbal', 'badref'):
            cur.append(e)
        elif e[0] in ('end', 'panic'):
            runs.append((cur, e))
            cur = []
    d, seen = None, {}
    if len(runs) != len(calls):
        d = 'the calls did not end'
    for n, ((f, v), (ev, end)) in enumerate(zip(calls, runs)):
        where = 'call %d, %s(%s)' % (n, f, show(v))
        if end[0] == 'panic':
            d = '%s: panic' % where
        elif any(e[0] in ('unbal', 'badref') for e in ev):
            d = '%s: %s' % (where, [e for e in ev if e[0] in ('unbal', 'badref')][0])
        elif any(x[1] for x in end[3:7]) or end[7][1] != 1:
            d = '%s: left the runtime with depths changed by %s' % (where, [show(x) for x in end[3:8]])
        else:
            # Relative to what the caller has declared, every depth is the same before and after the calls.
            ps = [tuple(x[1] for x in e[2:]) for e in ev if e[0] == 'p']
            for j, q in enumerate(ps):
                q = (q[0] - j, q[1] - j) + q[2:]
                if q != (ps[0] if j == 0 else rel):
                    d = '%s: the depths of stack, locals, currents and calls are %s, before the inner call %s' % (where, q, rel)
                    break
                rel = q
                ctx.cov['probes_compared'] += 1
            if f == 'main' and len(ps) != 3:
                d = '%s: the caller did not go on after the inner call: %s' % (where, show(end[2], 400))
            if f == 'main' and not d:
                es = [e[1] for e in ev if e[0] == 'e']
                if num(11) not in es or ('a', (num(12), num(13))) not in es or es[-1] != num(13):
                    d = '%s: the caller\'s variables changed: %s' % (where, [show(x) for x in es])
        key = (f, repr(v))
        res = (repr([e for e in ev if e[0] == 'e']), repr(end[1:3]))
        if not d and 'go ' not in text and seen.setdefault(key, res) != res:
            d = '%s: differs from the same call before: %s, before %s' % (where, res, seen[key])
        if d:
            break
    if d:
        ctx.violation('C10-place', '%s\n\n%s' % (d, text), ops)


def case(ctx, rng, i):
    if i % 5 == 4:
        return place(ctx, rng, i // 5)
    if rng.random() < .4:
        g = c11.G(rng)
        fns = g.program()
        main, nargs = fns[-1].name, 1
    else:
        g = Gen(rng, dict(if_=3, forn=2, for_=1.5, loop=1.5, block=1, jump=3, ret=1.5, retset=.4, path=1, coll=1, mutcall=1,
                          clo=1, fault=2, nest=1), budget=14,
                ew=dict(clox=1.5, opt=.5, lazy=1, retx=.3))
        for k in range(rng.randint(0, 2)):
            f = lazy_fn(rng, k)
            g.fns.append(f)
            g.helpers.append(Helper(f, (N, N), N, True))
        fns = g.program()
        f = fns[-1]
        # Failures caught on the way.
        for _ in range(rng.randint(0, 3)):
            h = [x for x in g.helpers if x.rty == N and not any(p.mut for p in x.fn.params) and all(t == N for t in x.ptys)]
            if h:
                c = rng.choice(h)
                at = rng.randrange(len(f.body))
                t = 'try%d' % rng.randrange(1000)
                e = call(c.fn.name, *[lit(rng.randint(0, 4)) for _ in c.ptys])
                if rng.random() < .5:
                    e = call('tn', lit(800), ('bin', '+', e, call('fail_ret', ('str', 'inner')) if rng.random() < .5 else e))
                f.body[at:at] = [decl(t, ('try', e)), call('emit_id', lit(801), call('is_ok', item(t)))]
        main, nargs = 'f0', 2
    ids = [5000]
    for f in fns:
        if f.expr is None:
            ids[0] += 1
            f.body = [call('probe', lit(ids[0]))] + sprinkle(rng, ids, f.body)
    calls = []
    for _ in range(8):
        calls.append((main, [num(rng.choice((0, 1, 2, 3, 4, 5, -1, .5, 7))) for _ in range(nargs)]))
    if nargs == 1:
        calls.insert(rng.randrange(8), (rng.choice(fns).name, [num(rng.randint(0, 9))]))
    exp = predict(fns, calls, external={'hcall': c11.hcall})
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C10', check_depth=True)
