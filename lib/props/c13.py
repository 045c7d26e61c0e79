"""C13: receivers."""
from gen import *
from model import *
from lang import Fn, Param
from wire import enc

PLAN = {'quick': (1800, 625, 300), 'thorough': (60000, 60000, 2400)}
RULE = ('Sequential programs that create, copy, nest and drop receivers of several functions while calling those functions directly, '
        'nested, recursively, from closures, with mutable arguments, currents and on other threads, and consume the messages '
        'by polling, waiting and all loop forms. Concurrent programs: several threads call the same functions with tagged arguments '
        'while receivers are created, drained and dropped. Non-trivial: more than two events.')
TECHNIQUE = ('online trace monitor against a reference interpreter with one queue per receiver; offline checker of recorded messages '
             '(exactly once, order per caller, nothing lost after creation) for concurrent runs')
NOTE = 'Thread schedules are those the operating system gives under injected delays. Samples programs and schedules.'

VALS = (('num', 1.0), ('num', 2.0), ('num', 0.0), ('num', -3.0), ('num', .5))


class G13:
    def __init__(self, rng):
        self.r, self.n = rng, 0
        self.recvs, self.depth, self.loops = [], 0, []
        self.clo = None

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def num(self):
        r = self.r
        return r.choice((item('a'), item('b'), item('n')) + tuple(r.choice(VALS) for _ in range(3)))

    FN = {'t0': 1, 't1': 2, 't2': 2, 't3': 1, 'u0': 1, 'u1': 1}

    def call(self):
        """One or more calls of the observed functions."""
        r = self.r
        x = r.random()
        if x < .25:
            return [call('t0', self.num())]
        if x < .45:
            e = ('obj', [('k', self.num()), ('l', item('arr'))]) if r.random() < .5 else \
                r.choice((('str', self.nm('s')), item('arr'), item('n'), ('arr', [item('n'), self.num()])))
            return [emit(call('t1', self.num(), e))]
        if x < .6:
            return [call('t2', ('mut', item('arr')), self.num())]
        if x < .7:
            return [call('t3', self.num())]
        if x < .8:
            return [call(r.choice(('u0', 'u1')), lit(r.randint(0, 3)))]
        if x < .86:
            return [emit(('cloc', item('cl'), [self.num()]))]
        if x < .93:
            t = self.nm('h')
            return [decl(t, ('go', 'u2', [lit(r.randint(0, 3))])), emit(call('join', item(t)))]
        return [('forn', 'for', None, [(self.nm('i'), None, lit(r.randint(0, 3)))], [call('t0', self.num())])]

    def live(self):
        return self.r.choice(self.recvs) if self.recvs else None

    def val(self, m, kind):
        r = self.r
        e = call('blur', item(m, ('[', lit(0), None)))
        if kind in ('any', 'all', 'min', 'max') and r.random() < .35:
            i = self.nm('i')
            v = ('bin', r.choice('+-*'), item(i), call('tn', lit(8), e))
            return ('forn', kind, None, [(i, None, lit(r.randint(0, 3)))],
                    [('cmp', r.choice(('<', '>', '==')), call('tn', lit(9), v), r.choice(VALS)) if kind in ('any', 'all') else v])
        if kind in ('any', 'all'):
            return ('cmp', r.choice(('<', '>', '==')), call('tn', lit(5), e), r.choice(VALS))
        if kind == 'sift':
            return r.choice((call('clone', item(m)), call('tn', lit(6), e)))
        return call('tn', lit(7), e)

    def consume(self):
        r = self.r
        v = self.live()
        if v is None:
            return self.make()
        x = r.random()
        if x < .3:
            return [emit(call('next', v))]
        if x < .4:
            t = self.nm('w')
            return [decl(t, call('next', v)), call('emit_id', lit(1), item(t))]
        m = self.nm('m')
        kind = r.choice(('for', 'for', 'sum', 'prod', 'min', 'max', 'any', 'all', 'sift', 'link'))
        label = self.nm('l') if r.random() < .3 else None
        b = []
        jump = lambda: (r.choice(('break', 'cont')), r.choice((None, label) + (tuple(self.loops) if kind == 'for' else ())))
        test = lambda: ('cmp', r.choice(('<', '>', '==')), call('tn', lit(4), call('blur', item(m, ('[', lit(0), None)))), r.choice(VALS))
        if kind == 'link':
            its = [r.choice((call('str', item(m, ('[', lit(0), None))), self.val(m, 'sum'), ('str', 'x'), ('bool', True)))
                   for _ in range(r.randint(1, 3))]
            if r.random() < .5:
                its.insert(0, ('if', [(test(), [jump()])], r.choice((None, [lit(3)]))))
            return [emit(('forin', kind, label, m, v, its))]
        if r.random() < .4:
            b.append(emit(item(m)))
        if r.random() < .4:
            b.append(('if', [(test(), [jump()])], None))
        if r.random() < .2 and kind == 'for':
            # Calls while draining: the loop sees what is sent meanwhile (at most a few).
            b.append(('if', [(('cmp', '<', item('n'), lit(30)), [('set', '+=', item('n'), lit(1))] + self.call())], None))
        if r.random() < .15 and kind == 'for' and self.depth < 2:
            self.depth += 1
            b += self.consume()
            self.depth -= 1
        if kind == 'for':
            return [('forin', 'for', label, m, v, b or [emit(item(m))])]
        if r.random() < .25 and kind != 'link':
            # A loop of the same form is the value: jumps may leave both.
            m2, l2 = self.nm('m'), self.nm('l') if r.random() < .4 else None
            b2 = [emit(item(m2))] if r.random() < .5 else []
            if r.random() < .7:
                b2.append(('if', [(('cmp', r.choice(('<', '>', '==')), call('tn', lit(3), call('blur', item(m2, ('[', lit(0), None)))),
                                    r.choice(VALS)), [(r.choice(('break', 'cont')), r.choice((None, l2, label)))])], None))
            inner = ('forin', kind, l2, m2, self.live(), b2 + [self.val(m2, kind)]) if r.random() < .6 else \
                ('forn', kind, l2, [(m2, None, lit(r.randint(0, 3)))],
                 [('if', [(('cmp', r.choice(('<', '>', '==')), item(m2), r.choice(VALS)),
                           [(r.choice(('break', 'cont')), r.choice((None, l2, label)))])], None), self.val(m, kind)])
            t = self.nm('q')
            return [decl(t, ('forin', kind, label, m, v, b + [inner])), emit(item(t))]
        t = self.nm('q')
        out = [decl(t, ('forin', kind, label, m, v, b + [self.val(m, kind)])), emit(item(t))]
        if kind in ('min', 'max', 'any', 'all') and r.random() < .4:
            w = self.nm('w')
            out += [decl(w, ('try', call('where' if kind in ('min', 'max') else 'why', item(t)))), emit(item(w))]
        return out

    def make(self):
        r = self.r
        f = r.choice(('t0', 't0', 't1', 't3', 'u0'))
        x = r.random()
        t = self.nm('r')
        if x < .65:
            self.recvs.append(item(t))
            return [decl(t, ('in', f))]
        if x < .75:
            self.recvs.append(item(t))
            return [decl(t, call('mk'))]
        if x < .85:
            self.recvs += [item(t, ('[', lit(0), None)), item(t, ('[', lit(1), None))]
            return [decl(t, ('arr', [('in', f), ('in', r.choice(('t0', 't1')))]))]
        if x < .95 and self.recvs:
            v = self.live()
            self.recvs.append(item(t))
            return [decl(t, v)]
        return [decl(t, ('obj', [('f', ('in', f))])), emit(call('next', item(t, ('.', 'f', None))))]

    def stmt(self):
        r = self.r
        x = r.random()
        if x < .25:
            return self.make()
        if x < .62:
            return self.call()
        if x < .9 or self.depth > 1:
            return self.consume()
        if x < .93 and not self.loops:
            # Jumps out of loops over receivers.
            self.depth += 1
            l = self.nm('o')
            self.loops.append(l)
            sv = list(self.recvs)
            b = [s for _ in range(r.randint(1, 3)) for s in self.call()] + self.consume() + self.call() + self.consume()
            self.loops.pop()
            self.recvs = sv
            self.depth -= 1
            return [('forn', 'for', l, [(self.nm('i'), None, lit(r.randint(1, 3)))], b)]
        if x < .96:
            # A receiver that goes away.
            self.depth += 1
            sv = list(self.recvs)
            b = self.make() + [s for _ in range(r.randint(1, 4)) for s in self.stmt()]
            self.recvs = sv
            self.depth -= 1
            return [('if', [(('bool', True), b)], None)]
        return self.call()

    def program(self):
        r = self.r
        a = item('x')
        fns = [
            Fn('t0', [Param('x', r.choice(('f64', 'any', None)))], [call('emit_id', lit(100), a)] if r.random() < .3 else []),
            Fn('t1', [Param('x', 'f64'), Param('y', 'any')], [('ret', ('bin', '+', a, lit(1)))], True, 'f64'),
            Fn('t2', [Param('v', '[f64]', mut=True), Param('x', 'f64')],
               [('if', [(('cmp', '<', call('len', item('v')), lit(6)), [call('push', ('mut', item('v')), a)])],
                 [('set', '+=', item('v', ('[', lit(0), None)), lit(1))])]),
            Fn('t3', [Param('x', 'f64')], [('set', '+=', item('cu'), a)], currents=[(True, 'cu', 'f64')]),
            Fn('u0', [Param('x', 'f64')], [('if', [(('cmp', '>', a, lit(0)), [call('t0', a), call('u0', ('bin', '-', a, lit(1))),
                                                                             call('t0', ('neg', a))])], None)]),
            Fn('u1', [Param('x', 'f64')], [('forn', 'for', None, [('i', None, a)], [decl('z', call('t1', item('i'), item('i')))])]),
            Fn('u2', [Param('x', 'f64')], [('forn', 'for', None, [('i', None, a)], [call('t0', ('bin', '*', item('i'), lit(10)))]),
                                           decl('w', ('arr', [a])), call('t2', ('mut', item('w')), a),
                                           ('ret', call('clone', item('w')))], True, 'any'),
            Fn('mk', [], [call('t0', lit(9)), ('ret', ('in', 't0'))], True, 'any'),
        ]
        body = [decl('n', lit(r.randint(0, 3))), decl('arr', ('arr', [lit(1), lit(2)])), ('curdecl_', 0),
                decl('cl', ('clo', [('x', 'f64')], [], ('block', [call('t0', item('x')), call('t1', item('x'), ('str', 'c'))])))]
        body[2] = ('decl', ('curdecl', 'cu', [], None), lit(0))
        for _ in range(r.randint(5, 16)):
            body += self.stmt()
        for v in self.recvs:
            m = self.nm('m')
            body.append(('forin', 'for', None, m, v, [call('emit_id', lit(2), item(m))]))
        body += [emit(item('arr')), emit(item('cu')), emit(item('n'))]
        fns.append(Fn('f0', [Param('a', 'f64'), Param('b', 'f64')], body))
        return fns


CONC = """fn t0(x: any) {}
fn t1(k: f64, i: f64) -> f64 { return clone(i) }
fn w(k: f64, n: f64, j: f64) -> f64 {
    for i n {
        if j > 0 { nap((i * (k + 3) * 7 + j * 13) % 60) }
        t0([k, i])
        x := t1(k, i)
    }
    return clone(k)
}
fn w2(k: f64, n: f64, j: f64, g: f64) -> f64 {
    for i n {
        if j > 0 { nap((i * (k + 3) * 7 + j * 13) % 60) }
        t0([k, i])
    }
    gate_inc()
    gate_wait(g)
    for i [n, n + n) {
        t0([k, i])
    }
    return clone(k)
}
fn drops(c: f64, j: f64) -> f64 {
    for i c {
        r := in t0
        if j > 0 { nap(j) }
        x := next(r)
        q := in t0
        y := in t1
    }
    return 0
}
fn poll(r: in, c: f64) -> any {
    out := []
    for i c {
        x := next(r)
        if x != none() { push(mut out, unwrap(x)) }
        nap(7)
    }
    return clone(out)
}
fn cons(r: in, n: f64) -> any {
    out := []
    for i n {
        push(mut out, unwrap(wait_next(r)))
    }
    return clone(out)
}
fn host(k: f64, n: f64, j: f64) -> any {
    r := in t1
    for i n {
        if j > 0 { nap((i * 11 + j) % 30) }
        t0([k, i])
        x := t1(k, i)
    }
    return sift m in r { clone(m) }
}
"""


def conc(ctx, rng):
    """Threads call the observed functions; the recorded messages are checked afterwards."""
    k, n, j = rng.randint(2, 5), rng.choice((1, 3, 10, 40)), rng.choice((0, 0, 1, 2))
    if rng.random() < .2:
        return conc_host(ctx, rng, k, n, j)
    gate = rng.random() < .5
    drops = rng.choice((0, 0, 1, 2))
    polls = rng.choice((0, 0, 1, 2))
    cons = rng.random() < .4
    L = ['r0 := in t0', 'r1 := in t1', 'rp := in t0', 'rc := in t0']
    if cons:
        L.append('hc := go cons(rc, %d)' % (k * n * (2 if gate else 1)))
    for p in range(polls):
        L.append('hp%d := go poll(rp, %d)' % (p, n * 2 + 20))
    for d in range(drops):
        L.append('hd%d := go drops(%d, %d)' % (d, rng.choice((3, 20)), rng.choice((0, 1, 30))))
    for w in range(k):
        L.append('h%d := go %s' % (w, 'w2(%d, %d, %d, %d)' % (w, n, j, k + 1) if gate else 'w(%d, %d, %d)' % (w, n, j)))
    if rng.random() < .5:
        L.append('nap(%d)' % rng.choice((0, 20, 200)))
    L.append('rm := in t0')
    if gate:
        L += ['gate_wait(%d)' % k, 'rg := in t0', 'rx := in t0', 'gate_inc()']
    for x in ['h%d' % w for w in range(k)] + ['hd%d' % d for d in range(drops)]:
        L.append('emit_id(1, join(thread: %s))' % x)
    for p in range(polls):
        L.append('emit_id(20, unwrap(join(thread: hp%d)))' % p)
    if cons:
        L.append('emit_id(30, unwrap(join(thread: hc)))')
    for idn, v in [(10, 'r0'), (11, 'r1'), (12, 'rm'), (20, 'rp')] + ([(13, 'rg'), (13, 'rx')] if gate else []):
        L.append('emit_id(%d, sift m in %s { clone(m) })' % (idn, v))
    L.append('t0(1)')
    L.append('emit_id(14, next(r0))')
    text = CONC + 'fn f0() {\n' + ''.join('    %s\n' % l for l in L) + '}\n'
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r'), ('call', 'r', 'm', 'f0')]
    rep = ctx.run(ops)
    ld = rep.of('load')
    if not ld or ld[0][1][1] != 'ok' or not rep.of('end'):
        ctx.inconclusive('concurrent program did not finish', '%s %s' % (rep.died, ld and show(ld[0][2])))
        return
    end = rep.of('end')[0]
    if end[1][1] != 'ok':
        if 'MONITOR' in end[2][1]:
            ctx.inconclusive('gate', '')
            return
        ctx.violation('C13 conc', 'the concurrent program failed: ' + show(end[2], 800) + '\n' + text, ops)
        return
    got = {}
    for e in rep.of('E'):
        got.setdefault(int(e[1][1]), []).append(e[2])
    tot = 2 * n if gate else n
    d = None
    for v in got[1]:
        if v[0] != 'ok':
            d = 'a thread failed: ' + show(v)

    def pairs(v, one):
        return [(int(m[1][0][1][0][1]), int(m[1][0][1][1][1])) if one else (int(m[1][0][1]), int(m[1][1][1])) for m in v[1]]

    def per(ps):
        r = {w: [] for w in range(k)}
        for a, b in ps:
            r[a].append(b)
        return r
    try:
        if d is None:
            full = {w: list(range(tot)) for w in range(k)}
            if per(pairs(got[10][0], True)) != full:
                d = 'a receiver made before the threads started saw %r' % per(pairs(got[10][0], True))
            if not gate and per(pairs(got[11][0], False)) != full:
                d = 'a receiver of a second function saw %r' % per(pairs(got[11][0], False))
            if gate and got[11][0][1]:
                d = 'a receiver of a function nobody called got a message'
            for w, x in per(pairs(got[12][0], True)).items():
                if x != list(range(tot - len(x), tot)):
                    d = 'a receiver made while thread %d was calling saw %r' % (w, x)
            for v in got.get(13, ()):
                if per(pairs(v, True)) != {w: list(range(n, tot)) for w in range(k)}:
                    d = 'a receiver made between two phases saw %r' % per(pairs(v, True))
            parts = [per(pairs(v, True)) for v in got[20]]
            for w in range(k):
                for q in parts:
                    if q[w] != sorted(q[w]):
                        d = 'one consumer saw the calls of thread %d out of order: %r' % (w, q[w])
                if sorted(x for q in parts for x in q[w]) != list(range(tot)):
                    d = 'consumers sharing a receiver saw of thread %d together %r' % (w, sorted(x for q in parts for x in q[w]))
            for v in got.get(30, ()):
                if per(pairs(v, True)) != full:
                    d = 'a blocking consumer saw %r' % per(pairs(v, True))
            if got[14][0] != ('?', ('a', (num(1),))):
                d = 'a later call was received as ' + show(got[14][0])
    except (IndexError, KeyError, TypeError, ValueError):
        d = 'a message is not what was sent: ' + ' '.join(show(v) for q in got.values() for v in q)[:600]
    if d:
        ctx.violation('C13 conc', d + '\n\n' + text, ops)
        return
    order = tuple(a for a, b in pairs(got[10][0], True))
    ctx.cov['concurrent_runs'] += 1
    ctx.cov['concurrent_messages'] += len(order)
    ctx.cov['thread_switches_seen'] += sum(x != y for x, y in zip(order, order[1:]))
    ctx.seen(('order', order, len(got[12][0][1])), True)


def conc_host(ctx, rng, k, n, j):
    """The same on host threads with runtimes of their own."""
    text = CONC
    ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text), ('par', 'm') + tuple(
        x for w in range(k) for x in (b'|', 'host', enc(num(w)), enc(num(n)), enc(num(j))))]
    rep = ctx.run(ops)
    ends = rep.of('pend')
    if len(ends) != k:
        ctx.inconclusive('host threads did not finish', str(rep.died))
        return
    d = None
    for w, e in enumerate(ends):
        if e[1][1] != 'ok':
            d = 'a host thread failed: ' + show(e[2], 600)
            break
        got = {}
        for m in e[2][1]:
            got.setdefault(int(m[1][0][1]), []).append(int(m[1][1][1]))
        if got.get(w, []) != list(range(n)):
            d = 'the receiver of host thread %d saw of its own calls %r' % (w, got.get(w))
        for q, x in got.items():
            if x != list(range(n - len(x), n)) and x != list(range(x[0], x[0] + len(x))):
                d = 'the receiver of host thread %d saw of thread %d %r' % (w, q, x)
    if d:
        ctx.violation('C13 conc', d + '\n\n' + text, ops)
        return
    ctx.cov['host_thread_runs'] += 1


def case(ctx, rng, i):
    if i % 8 == 7:
        return conc(ctx, rng)
    g = G13(rng)
    fns = g.program()
    calls = [('f0', [num(rng.choice((0, 1, 2))), num(rng.choice((0, 1, 3, -1, .5)))]) for _ in range(3)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C13')
