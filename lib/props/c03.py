"""C03: mutation and aliasing."""
from gen import *
from model import *

PLAN = {'quick': (8000, 1125, 300), 'thorough': (80000, 60000, 2400)}
RULE = ('Random histories over nested arrays and objects: copies by declaration, assignment, clone, fill, push, insert, '
        'literals and by-reference insertion of variables, nested path assignment, compound assignment, new keys, mutable '
        'calls (also with aliased arguments); the whole environment is dumped after steps. Non-trivial: more than two events.')
TECHNIQUE = 'online trace monitor: environment dumps compared with a reference interpreter with unshared slots'
NOTE = ('Every observed dump of every variable is compared with a store model in which only documented sharing exists. '
        'Samples histories; trusts the reference interpreter.')


def case(ctx, rng, i):
    g = Gen(rng, dict(decl=2, copy=8, set=2, path=8, setvar=3, setelem=3, refpush=2, newkey=1, coll=3, mutcall=3, dump=8,
                      emit=1, if_=.6, forn=.8, for_=0, loop=0, block=.4, jump=0, ret=0), budget=18,
            ew=dict(trace=0, ifx=.2, loopx=.3, callx=.3), maxdepth=2)
    g.alen, g.idxs = ((2, 2, 3, 3, 4), (0, 0, 1)) if rng.random() < .9 else ((1, 2, 3), (0, 1, 2))
    g.TYPES = (AN, AAN, AAN, ('a', AAN), OB, OO, N, AOB)
    for _ in range(rng.randint(0, 2)):
        g.helper(rng.choice((((AN, N), None, (0,)), ((OB, N), None, (0,)), ((AAN, AN), None, (0,)), ((OO, N), None, (0,)),
                             ((AN, AN), N, (0, 1)), ((AN,), N, (0,)), ((AAN,), None, (0,)), ((N, N), None, (0,)),
                             ((AAN, AN), N, ()))))
    g.budget = 18
    g.function('f0', (N, N), 'any', 16)
    fns = g.fns
    f = fns[-1]
    # Make sure that the final state is seen.
    calls = [('f0', a) for a in arg_sets(rng, 2, 3)]
    exp = predict(fns, calls)
    if exp is None:
        ctx.cov['skipped_by_model'] += 1
        return
    run_program(ctx, fns, calls, exp, 'C03')
