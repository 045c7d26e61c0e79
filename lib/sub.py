"""Runs the workload of another property under a different observer."""
import collections, importlib, os

HERE = os.path.dirname(os.path.abspath(__file__))


class Sub:
    """Stands in for the context: what the other module would conclude is dropped,
    the operations go to `runner`."""

    def __init__(self, ctx, runner):
        self.ctx, self.runner = ctx, runner
        self.cov, self.unsure, self.unsure_ex = collections.Counter(), collections.Counter(), {}
        self.scratch, self.tier, self.id, self.index, self.seed = ctx.scratch, ctx.tier, ctx.id, ctx.index, ctx.seed

    def run(self, ops, kind='std', crash_ok=False):
        return self.runner(ops)

    def seen(self, *a, **k):
        pass
    kind = sample = violation = inconclusive = seen


_mods = {}


def module(name):
    """The property module of that name, or None."""
    if name not in _mods:
        p = os.path.join(HERE, 'props', name + '.py')
        _mods[name] = importlib.import_module('props.' + name) if os.path.exists(p) else None
    return _mods[name]
