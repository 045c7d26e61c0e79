"""Runs a program in the reference interpreter and in the real one and compares
what an external observer sees."""
from lang import Interp, Fault, Fuel, Dead, Brk, Cnt, print_program
from wire import enc, same, show, num


class Outcome:
    """What the model expects of one call."""
    __slots__ = ('events', 'kind', 'value', 'msg', 'stats', 'trace')


def predict(fns, calls, fuel=20000, external=None, setup=None):
    """Model outcome per host call; None when the model can not follow."""
    out = []
    for name, args in calls:
        it = Interp(fns, fuel, external)
        if setup:
            setup(it)
        o = Outcome()
        o.trace = ()
        try:
            v = it.call(name, args)
            o.kind = 'ok'
            o.value = None if v is None else it.snap(v)
            o.msg = ''
        except Fault as f:
            o.kind, o.value, o.msg, o.trace = 'err', None, f.msg, f.trace
        except (Fuel, Dead, RecursionError, Brk, Cnt, OverflowError):
            return None
        o.events, o.stats = it.events, it.stats
        out.append(o)
    return out


TAGS = ('e', 'E', 't', 'p')


def match_val(exp, got, pos=None, file=None):
    """Equality that understands the model's placeholders."""
    if exp is None or got is None:
        return exp is got
    if exp[0] == 'wild':
        return got[0] == 's' and exp[1] in got[1] and traces_in(exp[2:], got[1], pos)
    if exp[0] == 'err' and got[0] == 'err':
        if not match_val(exp[1], got[1], pos, file):
            return False
        if len(exp[2]) != len(got[2]):
            return False
        for x, g in zip(exp[2], got[2]):
            if x[0] == '@' and not trace_ok(x, g, pos):
                return False
        return True
    if exp[0] != got[0]:
        return False
    if exp[0] in ('ok',):
        return match_val(exp[1], got[1], pos, file)
    if exp[0] == '?':
        if exp[1] is None or got[1] is None:
            return exp[1] is None and got[1] is None
        return match_val(exp[1], got[1], pos, file)
    if exp[0] == 'a':
        return len(exp[1]) == len(got[1]) and all(match_val(x, y, pos, file) for x, y in zip(exp[1], got[1]))
    if exp[0] == 'o':
        return exp[1].keys() == got[1].keys() and all(match_val(exp[1][k], got[1][k], pos, file) for k in exp[1])
    return same(exp, got)


def traces_in(ts, text, pos):
    """The report holds every trace entry, in order."""
    parts = text.split('In function `')[1:]
    ts = [t for t in ts if t[0] == '@']
    if not ts:
        return True
    return len(parts) >= len(ts) and all(trace_ok(t, 'In function `' + p, pos) for t, p in zip(ts, parts[-len(ts):]))


def trace_ok(x, got, pos):
    fn, key = x[1], x[2]
    if isinstance(key, str) and key.startswith('L') and pos and key in pos:
        return got.startswith('In function `%s` (a.dyon)' % fn) and got.count('\n') and '\n%d,' % pos[key][0] in got
    if fn is not None and ('`' not in got and fn not in got):
        return False
    if isinstance(key, str) and pos and key in pos:
        l, c = pos[key][:2]
        return '%d,%d:' % (l, c) in got
    return True


def compare(ctx, fns, calls, expect, rep, pos=None, ret='callret', loaded=1):
    """Compares the events of a report with the model.  Returns a description of
    the first difference, or None."""
    evs = list(rep.events)
    i = 0
    probes = {}
    for n, (name, args) in enumerate(calls):
        o = expect[n]
        where = 'call %d: %s(%s)' % (n, name, ', '.join(show(a) for a in args))
        got = []
        while i < len(evs) and evs[i][0] not in ('end', 'panic', 'abort'):
            if evs[i][0] == 'badref':
                return '%s: a reference to a variable that is gone was on the stack %r' % (where, evs[i][1:])
            if evs[i][0] in TAGS:
                got.append(evs[i])
            elif evs[i][0] == 'unbal':
                return '%s: nested call left the runtime unbalanced: %s' % (where, show(evs[i][1]))
            i += 1
        for j, e in enumerate(o.events):
            if j >= len(got):
                break
            g = got[j]
            if g[0] != e[0]:
                return '%s: step %d: expected %s, observed %s' % (where, j, sh(e), sh(g))
            if e[0] == 'p':
                if not same(e[1], g[1]):
                    return '%s: step %d: expected %s, observed %s' % (where, j, sh(e), sh(g))
                # Relative to the variables in scope, the depths are those of the first probe of the same call.
                d = tuple(x[1] - y for x, y in zip(g[2:6], (e[3], e[3], e[4], 0)))
                if probes.setdefault((n, e[2]), d) != d:
                    return ('%s: step %d: the depths of stack, locals, currents and calls differ by %r from an earlier point of '
                            'the same call' % (where, j, tuple(int(x - y) for x, y in zip(d, probes[n, e[2]]))))
                ctx.cov['probes_compared'] += 1
            elif not all(match_val(x, y, pos) for x, y in zip(e[1:], g[1:])):
                return '%s: step %d: expected %s, observed %s' % (where, j, sh(e), sh(g))
        if len(got) != len(o.events):
            j = min(len(got), len(o.events))
            nxt = sh(o.events[j]) if j < len(o.events) else 'the end (%s)' % o.kind
            tail = ''
            if len(got) <= j and i < len(evs):
                tail = sh(evs[i])
            return '%s: step %d: expected %s, observed %s' % (where, j, nxt, sh(got[j]) if j < len(got) else 'the end ' + tail)
        if i >= len(evs):
            return '%s: no end was observed (%s)' % (where, rep.died)
        e = evs[i]
        if e[0] != 'end':
            return '%s: expected %s, observed a crash: %s' % (where, o.kind, sh(e))
        i += 1
        kind = e[1][1]
        if kind != o.kind:
            return '%s: expected %s %s, observed %s %s' % (where, o.kind, show(o.value) if o.value else o.msg, kind, show(e[2], 600))
        if kind == 'ok':
            if o.value is not None and not match_val(o.value, e[2], pos):
                return '%s: expected result %s, observed %s' % (where, show(o.value), show(e[2]))
        elif not traces_in(o.trace, e[2][1], pos):
            return '%s: expected a report with the traces %r, observed %s' % (where, o.trace, show(e[2], 900))
        elif o.msg and o.msg not in e[2][1]:
            return '%s: expected an error with %r, observed %s' % (where, o.msg, show(e[2], 600))
    return None


def sh(e):
    return e[0] + ' ' + ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:])


def run_program(ctx, fns, calls, expect, sig='', kind='std', keep_rt=True, header='', check_depth=False, on_report=None, must_load=None):
    """Loads the program, performs the calls, compares.  Returns the report or None."""
    text, pos = print_program(fns, header)
    ops = [('limit', sum(len(o.events) for o in expect) + 400), ('mod', 'm'), ('load', 'm', 'a.dyon', text), ('rt', 'r')]
    for name, args in calls:
        f = [g for g in fns if g.name == name][0]
        if not keep_rt:
            ops.append(('rt', 'r'))
        ops.append(('callret' if f.returns else 'call', 'r', 'm', name) + tuple(enc(a) for a in args))
    rep = ctx.run(ops, kind)
    ctx.cov['programs'] += 1
    ld = rep.of('load')
    if ld and ld[0][1][1] != 'ok' and must_load and must_load(ld[0][2][1]):
        ctx.violation(sig + '-load', 'a correct program was rejected: %s\n%s' % (ld[0][2][1], text), ops)
        return None
    if ld and ld[0][1][1] != 'ok':
        ctx.inconclusive('rejected by the loader', text + '\n' + ld[0][2][1])
        ctx.cov['rejected'] += 1
        return None
    rep.events = [e for e in rep.events if e[0] != 'load']
    d = on_report(rep) if on_report else None
    d = d or compare(ctx, fns, calls, expect, rep, pos)
    if d is None and check_depth:
        for e in rep.of('end'):
            deltas = [x[1] for x in e[3:7]]
            if any(deltas):
                d = 'the call %s left the runtime with depths changed by %r' % (
                    'succeeded but' if e[1][1] == 'ok' else 'failed and', deltas)
                break
            if e[7][1] != 1:
                d = 'the call did not restore the module of the runtime'
                break
    if d is None and rep.over:
        d = 'more events than the model allows'
    if d is not None:
        ctx.violation(sig or 'model', d + '\n\n' + text, ops)
        return rep
    for o in expect:
        ctx.seen((tuple(repr(e) for e in o.events), o.kind, repr(o.value)), len(o.events) > 2)
        for k, v in o.stats.items():
            ctx.cov[k] += v
        ctx.cov['calls_compared'] += 1
        ctx.cov['outcome_' + o.kind] += 1
    if ctx.cov['programs'] <= 1:
        ctx.sample(text + '\nevents: ' + '; '.join(sh(e) for e in expect[0].events[:6]))
    return rep


def arg_sets(rng, n, k):
    pool = [0, 1, 2, 3, 4, 5, -1, 0.5, 7, 10]
    return [[num(rng.choice(pool)) for _ in range(n)] for _ in range(k)]
