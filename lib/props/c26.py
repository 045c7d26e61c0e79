"""C26: build configurations give the same script behaviour."""
import sub
from wire import show

PLAN = {'quick': (2500, 300, 300), 'thorough': (200000, 6000, 2400)}
BUILDS = {'quick': ['std', 'nolookup', 'async'], 'thorough': ['std', 'nolookup', 'async', 'release']}
RULE = ('The generated programs of the other properties (loading, running, failing, mutating, closures, threads, modules, data and conversions, also random texts) are run in the standard build and in '
        'the builds without checked variable lookup and with asynchronous threads (thorough: also optimised). The complete logs (verdicts and messages of '
        'the loader, values seen by host functions, results, errors, panics) must be equal. Non-trivial: at least one call ended; distinct by operations.')
TECHNIQUE = 'differential runtime monitor: the same operations run in differently configured builds of the real code and their event logs are compared'
NOTE = 'Programs whose log differs between two runs of the standard build (order of threads and keys) are skipped; the log of a program with threads is compared without regard to order.'
MODS = ['c01', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c25']


def log(rep):
    return ([e for e in rep.events if e[0] not in ('stamp', 'time')], rep.died)


def threads(ops):
    return any(o[0] == 'par' or o[0] == 'load' and 'go ' in str(o[-1]) for o in ops)


def key(rep, ops):
    z, died = log(rep)
    # The order of what several threads do is not fixed.
    return repr((sorted(map(repr, z)) if threads(ops) else z, died))


def shot(ctx, kinds, ops):
    rep = ctx.worker('std').run(ops)
    ctx.cov['events'] += len(rep.events)
    if rep.died in ('hang', 'blocked'):
        ctx.cov['slow'] += 1
        return rep
    base = key(rep, ops)
    ctx.seen(repr(ops), any(e[0] in ('end', 'conv', 'read') for e in rep.events))
    for k in kinds:
        if k == 'std':
            continue
        r2 = ctx.worker(k).run(ops)
        ctx.cov['runs ' + k] += 1
        if key(r2, ops) == base:
            continue
        # Does the standard build always do the same, and the other one something else?
        n = 12 if threads(ops) else 4
        std = {base} | {key(ctx.worker('std').run(ops), ops) for _ in range(n)}
        if len(std) > 1:
            ctx.cov['skipped, not repeatable'] += 1
            continue
        oth = {key(ctx.worker(k).run(ops), ops) for _ in range(n)} | {key(r2, ops)}
        if base in oth or len(oth) > 1:
            ctx.cov['skipped, not repeatable'] += 1
            continue
        a, b = log(rep), log(r2)
        j = next((j for j, (x, y) in enumerate(zip(a[0], b[0])) if x != y), min(len(a[0]), len(b[0])))
        ctx.violation('C26 ' + k, 'build %s differs from the standard build at event %d: %s instead of %s (ended %s instead of %s)\n%s' % (
            k, j, [show(x, 400) if isinstance(x, tuple) else x for x in (b[0][j] if j < len(b[0]) else ())],
            [show(x, 400) if isinstance(x, tuple) else x for x in (a[0][j] if j < len(a[0]) else ())], b[1], a[1], '\n'.join(str(o)[:1500] for o in ops)), ops)
    return rep


def case(ctx, rng, i):
    kinds = BUILDS[ctx.tier]
    names = [m for m in MODS if sub.module(m)]
    m = names[i % len(names)]
    ctx.kind('workload', m)
    s = sub.Sub(ctx, lambda ops: shot(ctx, kinds, ops))
    sub.module(m).case(s, rng, i)
    ctx.cov['cases_' + m] += 1
