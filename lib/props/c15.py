"""C15: data races."""
import os, re
import sub
from model import *
from wire import enc, Report

PLAN = {'quick': (420, 200, 300), 'thorough': (40000, 3000, 2400)}
BUILDS = {'quick': ['tsan'], 'thorough': ['tsan']}
RULE = ('Programs of the other properties called on three host threads at once with one loaded module and a runtime each; programs '
        'that start threads with shared links, strings, arrays, closures, receivers and handles and use them on both sides; threads '
        'that call observed functions while receivers come and go. Non-trivial: at least two threads ran library code; distinct by '
        'operations.')
TECHNIQUE = 'ThreadSanitizer on the real library and the standard library built with it'
NOTE = ('The event log of the monitors is switched off while threads run, so that it does not order them. ThreadSanitizer judges by '
        'happens-before, not by the schedule that was seen. Samples programs and schedules.')
MODS = ('c03', 'c04', 'c05', 'c12', 'c09', 'c11', 'c08', 'c06', 'c01', 'c07', 'c16', 'c24', 'c22')
THREADS = ('c13', 'c14', 'c14')


def envs(scratch):
    return {'tsan': {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:log_path=%s:report_thread_leaks=0:second_deadlock_stack=1:history_size=3'
                     % os.path.join(scratch, 'race')}}


def brief(t):
    m = re.search(r'WARNING: ThreadSanitizer:.*', t)
    fr = [f for f in re.findall(r'#\d+ (.*)', t) if '/repo/' in f or 'dyon' in f]
    return (m.group(0) if m else '') + '\n' + '\n'.join(fr[:16])


def shot(ctx, ops):
    w = ctx.worker('tsan')
    if w.p is None:
        w.start()
    pid = w.p.pid
    rep = w.run(ops)
    if rep.died:
        try:
            t = open(os.path.join(ctx.scratch, 'race.%d' % pid), errors='replace').read()
        except OSError:
            t = ''
        if 'ThreadSanitizer: data race' in t or 'ThreadSanitizer: heap-use' in t:
            ctx.violation('C15', 'ThreadSanitizer reported: ' + brief(t), ops)
        else:
            ctx.inconclusive('process died: ' + rep.died, t[:300])
        return rep
    ctx.cov['runs'] += 1
    n = len(rep.of('pend'))
    ctx.cov['host_threads'] += n
    ctx.cov['events_counted'] += sum(int(e[1][1]) for e in rep.of('quiet'))
    ctx.seen(repr(ops), n > 1 or b'go ' in repr(ops).encode())
    if rep.of('panic'):
        w.stop()
    return rep


def widen(ctx, rng, ops):
    """The calls of one module, on several host threads."""
    pre, calls = [], []
    for op in ops:
        if op[0] in ('call', 'callret'):
            calls.append((op[2], op[3:]))
        elif op[0] not in ('rt', 'limit', 'scan', 'out', 'drop', 'keep'):
            pre.append(op)
    if not calls or any(c[0] != calls[0][0] for c in calls):
        return None
    par = ()
    for k in range(3):
        c = calls[k % len(calls)] if rng.random() < .5 else calls[0]
        par += (b'|',) + tuple(c[1])
    return pre + [('scan', '0'), ('quiet', '1'), ('par', calls[0][0]) + par, ('par', calls[0][0]) + par, ('quiet', '0')]


SHARED = """fn t0(x: any) {}
fn use_link(l: link, n: f64) -> any {
    a := l
    for i n {
        a += unwrap(head(a))
        a = a + link { i "x" true }
        b := tail(a)
        c := neck(a)
        d := tip(a)
        e := head(b)
        if is_empty(b) { break }
    }
    return str(a)
}
fn use_arr(v: [], n: f64) -> any {
    a := v
    s := 0
    for i n {
        push(mut a, clone(i))
        a[0] = clone(i)
        s += len(a)
        b := clone(a)
        c := clone(a)
        reverse(mut c)
    }
    return clone(s)
}
fn use_str(t: str, n: f64) -> any {
    a := t
    for i n {
        a += str(i)
        b := chars(a)
        c := a + t
        d := a == t
        e := trim(a)
    }
    return len(chars(a))
}
fn use_obj(o: {}, n: f64) -> any {
    a := o
    for i n {
        a.k = clone(i)
        key := "z" + str(i)
        a[key] := clone(i)
        b := keys(a)
        c := has(a, "k")
        d := a == o
    }
    return str(len(keys(a)))
}
fn use_fn(f: any, n: f64) -> any {
    s := 0
    g := f
    for i n { s += \\g(i) }
    return clone(s)
}
fn use_in(r: in, n: f64) -> any {
    s := 0
    for i n {
        t0([i, "a"])
        x := next(r)
        if x != none() { s += 1 }
        q := in t0
        t0(i)
        y := next(q)
    }
    return clone(s)
}
fn use_nest(v: any, n: f64) -> any {
    x := go use_any(v, n)
    y := go use_any(v, n)
    a := v
    return [unwrap(join(thread: x)), unwrap(join(thread: y))]
}
fn use_any(v: any, n: f64) -> any {
    s := []
    for i n {
        a := v
        push(mut s, a)
        b := str(a)
        c := typeof(a)
    }
    return len(s)
}
fn use_thr(t: any, n: f64) -> any {
    a := t
    for i n { b := a }
    return join(thread: a)
}
"""
VALS = {'l': ('use_link', 'link { 1 2 "abc" true 3 4 5 6 }'), 'v': ('use_arr', '[1, [2, "x"], {a: 3}]'),
        's': ('use_str', '"some text \\n"'), 'o': ('use_obj', '{k: 1, m: [1, 2], s: "q"}'),
        'f': ('use_fn', '\\(x: f64) = (grab n0) + x * 2 + len(grab w0)'), 'r': ('use_in', 'in t0')}


def shared(rng):
    L = ['n0 := %d' % rng.randint(0, 3), 'w0 := [1, 2, 3]']
    made = []
    for k in rng.sample(sorted(VALS), rng.randint(1, 4)):
        f, e = VALS[k]
        L.append('%s := %s' % (k, e))
        made.append(k)
    if rng.random() < .5:
        L.append('big := {%s}' % ', '.join('%s: %s' % (k, k) for k in made))
        made.append('big')
    hs = []
    n = rng.choice((1, 3, 8))
    for i in range(rng.randint(2, 4)):
        k = rng.choice(made)
        fn = rng.choice((VALS[k][0],) * 4 + ('use_any', 'use_nest')) if k in VALS else rng.choice(('use_any', 'use_nest'))
        L.append('h%d := go %s(%s, %d)' % (i, fn, k, n))
        hs.append('h%d' % i)
        if rng.random() < .2:
            L.append('g%d := go use_thr(h%d, %d)' % (i, i, n))
            hs.append('g%d' % i)
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(made)
        fn = VALS[k][0] if k in VALS and rng.random() < .7 else 'use_any'
        L.append('z%d := %s(%s, %d)' % (rng.randint(0, 99), fn, k, n))
    for k, m in (('l', 'l += 5'), ('v', 'v[0] = 2'), ('s', 's += "b"'), ('o', 'o.k = 4'), ('w0', 'w0[0] = 3')):
        if (k in made or k == 'w0') and rng.random() < .5:
            L.append(m)
    for h in hs:
        if rng.random() < .85:
            L.append('j%s := join(thread: %s)' % (h, h))
    body = ''.join('    %s\n' % x for x in L)
    need, text = {'t0'}, body
    parts = {re.match(r'fn (\w+)', x).group(1): x for x in re.split(r'(?m)^(?=fn )', SHARED) if x}
    while True:
        more = {f for f in parts if f not in need and re.search(r'\b%s\b' % f, text)}
        if not more:
            break
        need |= more
        text += ''.join(parts[f] for f in more)
    return ''.join(parts[f] for f in parts if f in need) + 'fn f0() {\n' + body + '}\n'


def case(ctx, rng, i):
    x = i % 4
    if x == 0:
        text = shared(rng)
        ops = [('mod', 'm'), ('load', 'm', 'a.dyon', text)]
        if rng.random() < .5:
            ops += [('scan', '0'), ('quiet', '1'), ('par', 'm') + (b'|', 'f0') * rng.choice((2, 3))] + [('par', 'm') + (b'|', 'f0') * rng.choice((2, 4)) for _ in range(3)] + [('quiet', '0')]
        else:
            ops += [('rt', 'r'), ('scan', '0'), ('quiet', '1'), ('call', 'r', 'm', 'f0'), ('call', 'r', 'm', 'f0'), ('call', 'r', 'm', 'f0'), ('quiet', '0')]
        rep = shot(ctx, ops)
        ld = rep.of('load')
        if ld and ld[0][1][1] != 'ok':
            ctx.inconclusive('rejected by the loader', show(ld[0][2], 600))
        ctx.kind('workload', 'shared values')
        return
    if x == 1:
        ms = [m for m in THREADS if sub.module(m)]
        m = ms[(i // 4) % len(ms)]
        s = sub.Sub(ctx, lambda ops: shot(ctx, [('scan', '0'), ('quiet', '1')] + list(ops) + [('quiet', '0')]))
    else:
        ms = [m for m in MODS if sub.module(m)]
        m = ms[(i // 4) % len(ms)]

        def run(ops):
            w = widen(ctx, rng, ops)
            if w is not None:
                shot(ctx, w)
            return Report()
        s = sub.Sub(ctx, run)
    ctx.kind('workload', m)
    try:
        sub.module(m).case(s, rng, (i // 4) * 8 + 7 if m == 'c13' else i)
    except (IndexError, KeyError, AttributeError):
        # The other module looked for events in an empty report.
        pass
