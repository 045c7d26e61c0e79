"""C05: control flow and scoping."""
from gen import *
from model import *

PLAN = {'quick': (3600, 750, 300), 'thorough': (40000, 30000, 2400)}
RULE = ('Random typed programs of up to about 25 lines with nested if chains, counting, condition and endless loops, '
        'labelled and plain break/continue, early return, `return =`, shadowing and blocks; each is called with several '
        'argument sets. Non-trivial: the call produced more than two observed events; distinct by event trace.')


def case(ctx, rng, i):
    g = Gen(rng, dict(if_=5, forn=3, for_=2, loop=2, block=2, jump=4, ret=2, retset=.6, path=1, coll=.5, nest=2.5), budget=16)
    fns = g.program()
    calls = [('f0', a) for a in arg_sets(rng, 2, 6)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C05')

TECHNIQUE = 'online trace monitor: events of generated programs compared with a reference interpreter'
NOTE = ('Observes real executions of generated programs through host functions and compares every event, result and error '
        'with an independent reference interpreter. Trusts that interpreter (lib/lang.py) and samples programs and inputs; '
        'programs the loader rejects give no verdict here.')
