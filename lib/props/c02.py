"""C02: memory safety and leaks."""
import glob, os, re
import sub
from wire import Worker

PLAN = {'quick': (1200, 500, 300), 'thorough': (60000, 60000, 2400)}
BUILDS = {'quick': ['asan'], 'thorough': ['asan', 'asan_nolookup', 'msan']}
RULE = ('The workloads of the other properties (link histories, aliasing, control flow, operators, lazy calls, currents, lifetimes, '
        'closures, library calls, threads, data) run under AddressSanitizer, with a LeakSanitizer check after every twelve cases '
        'when everything has been dropped. Non-trivial: a case that executed at least one call or link operation; distinct by '
        'operations.')
TECHNIQUE = 'AddressSanitizer and LeakSanitizer on the real library (thorough: also unchecked lookup and MemorySanitizer)'
NOTE = ('A sanitizer report with a stack inside the process is a violation; panics, which other properties judge, are not. '
        'Memory that becomes unreachable is found at the next leak check and traced to the case by rerunning.')
MODS = ('c01', 'c01', 'c03', 'c04', 'c05', 'c07', 'c08', 'c10', 'c11', 'c17', 'c06', 'c09', 'c12', 'c13', 'c14', 'c16', 'c19',
        'c20', 'c21', 'c22', 'c23', 'c24')
EVERY = 12


def envs(scratch):
    r = {}
    for k in ('asan', 'asan_nolookup', 'msan'):
        lp = os.path.join(scratch, 'san-' + k)
        o = 'exitcode=77:log_path=%s:allocator_may_return_null=1:' % lp
        if k == 'msan':
            r[k] = {'MSAN_OPTIONS': o.replace('allocator_may_return_null=1:', '')}
        else:
            r[k] = {'ASAN_OPTIONS': o + 'detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=0',
                    'LSAN_OPTIONS': 'leak_check_at_exit=0:exitcode=0'}
    return r


def log_of(ctx, kind, pid):
    p = os.path.join(ctx.scratch, 'san-%s.%d' % (kind, pid))
    try:
        t = open(p, errors='replace').read()
    except OSError:
        return ''
    return t


def brief(t):
    """The head of the report and its frames in the library."""
    m = re.search(r'(ERROR|WARNING): \w+Sanitizer:.*', t)
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (.*)', t)
    fr = [re.sub(r' \(.*', '', f) for f in fr if '/repo/' in f or 'dyon' in f]
    return (m.group(0) if m else '') + '\n' + '\n'.join(fr[:14])


class State:
    def __init__(self):
        self.batch, self.since, self.leaks_work = [], 0, True


def shot(ctx, st, kind, ops):
    w = ctx.worker(kind)
    leak = kind != 'msan' and st.leaks_work and st.since + 1 >= EVERY
    if w.p is None:
        w.start()
    pid = w.p.pid
    rep = w.run(list(ops) + ([('leakcheck',)] if leak else []))
    if rep.died:
        t = log_of(ctx, kind, pid)
        if 'LeakSanitizer has encountered a fatal error' in t:
            st.leaks_work = False
            ctx.inconclusive('leak checking does not work here')
            return shot(ctx, st, kind, ops)
        st.batch, st.since = [], 0
        if 'Sanitizer' in t and 'stack-overflow' not in t and 'ERROR' in t or 'MemorySanitizer' in t:
            ctx.violation('C02-' + kind.split('_')[0], 'case ended by a sanitizer report: ' + brief(t), ops)
            ctx.cov['reports'] += 1
        else:
            ctx.inconclusive('process died: ' + rep.died, t[:300])
        return rep
    ctx.cov['events'] += len(rep.events)
    n = len([e for e in rep.events if e[0] in ('end', 'read', 'conv')])
    ctx.cov['calls_watched'] += len(rep.of('end'))
    ctx.seen(repr(ops), n > 0)
    if rep.of('panic') or rep.of('abort'):
        # The state after a panic says nothing about leaks.
        ctx.cov['panics'] += 1
        w.stop()
        st.batch, st.since = [], 0
        return rep
    st.batch.append(ops)
    st.since += 1
    if leak:
        ctx.cov['leak_checks'] += 1
        st.since = 0
        batch, st.batch = st.batch, []
        if any(e[1][1] == 'leak' for e in rep.of('leak')):
            w.kill()
            culprit = None
            for o in batch:
                w2 = Worker(ctx.exes[kind], cwd=w.cwd, env=dict(w.env, ASAN_OPTIONS=w.env['ASAN_OPTIONS'] + ':fast_unwind_on_malloc=0'))
                w2.start()
                p2 = w2.p.pid
                r2 = w2.run(list(o) + [('leakcheck',)])
                if any(e[1][1] == 'leak' for e in r2.of('leak')):
                    culprit = o
                    t = log_of(ctx, kind, p2)
                    ctx.violation('C02-leak', 'memory was left allocated after everything had been dropped: ' + brief(t), o)
                w2.kill()
                if culprit is not None:
                    break
            if culprit is None:
                ctx.inconclusive('a leak report did not repeat')
    return rep


_st = {}


def case(ctx, rng, i):
    kinds = BUILDS['thorough'] if ctx.tier == 'thorough' else BUILDS['quick']
    kind = kinds[i % len(kinds)]
    st = _st.setdefault(kind, State())
    names = [m for m in MODS if sub.module(m)]
    m = names[(i // len(kinds)) % len(names)]
    if kind == 'msan' and m in ('c13', 'c14'):
        m = 'c03'
    ctx.kind('workload', kind + ' ' + m)
    s = sub.Sub(ctx, lambda ops: shot(ctx, st, kind, ops))
    sub.module(m).case(s, rng, i)
    ctx.cov['cases_' + m] += 1
