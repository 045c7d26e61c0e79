#!/usr/bin/env python3
"""Runs the check of one property.

  check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--jobs N]

Exit 0: held on everything observed; 1: violation (VIOLATION line); 2: no verdict.
"""
import argparse, collections, hashlib, importlib, json, multiprocessing as mp, os, random, sys, tempfile, shutil, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import build as B
import wire


class Stop(Exception):
    """The case gave no answer."""


class Ctx:
    """What a property module uses: workers, coverage counters, verdicts."""

    def __init__(self, pid, tier, seed, exes, scratch):
        self.id, self.tier, self.seed, self.exes, self.scratch = pid, tier, seed, exes, scratch
        self.workers = {}
        self.cov = collections.Counter()
        self.distinct = set()
        self.kinds = collections.defaultdict(set)
        self.samples = []
        self.viol = []
        self.unsure = collections.Counter()
        self.unsure_ex = {}
        self.index = None
        self.envs = {}

    def worker(self, kind='std'):
        w = self.workers.get(kind)
        if w is None:
            d = os.path.join(self.scratch, 'w%d' % os.getpid())
            os.makedirs(d, exist_ok=True)
            w = wire.Worker(self.exes[kind], cwd=d, env=self.envs.get(kind))
            self.workers[kind] = w
        return w

    def run(self, ops, kind='std', crash_ok=False):
        """Runs a case.  A crash or a hang must repeat in fresh processes."""
        rep = self.worker(kind).run(ops)
        if rep.died and not crash_ok:
            again = self.worker(kind).run(ops)
            if again.died is None:
                # A state of the process before this case may be to blame.
                self.unsure['died-once ' + rep.died] += 1
                return again
            if again.died == 'blocked':
                self.unsure['blocked'] += 1
                raise Stop()
        self.cov['monitor_scans'] += rep.scans
        self.cov['references_checked'] += rep.refs
        self.cov['events'] += len(rep.events)
        return rep

    def seen(self, key, nontrivial=True):
        """Counts a distinct, non-trivial observation."""
        self.cov['evaluations'] += 1
        if nontrivial:
            self.cov['nontrivial'] += 1
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.distinct.add(h)

    def kind(self, group, name):
        self.kinds[group].add(name)

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text if len(text) < 2000 else text[:2000] + '…')

    def violation(self, sig, text, ops=None):
        if len(self.viol) < 20:
            self.viol.append({'sig': sig, 'text': text, 'index': self.index,
                              'ops': [[o if isinstance(o, str) else repr(o) for o in op] for op in (ops or [])]})
        self.cov['violations'] += 1

    def inconclusive(self, why, ex=None):
        self.unsure[why] += 1
        if ex is not None and why not in self.unsure_ex:
            self.unsure_ex[why] = ex

    def close(self):
        for w in self.workers.values():
            w.stop()


def run_part(mod, ctx, indices, deadline, found=None):
    """A violation that is not listed, found by any worker, ends the run after a while:
    hangs make the rest of it slow."""
    t0, ks = time.time(), {k[1] for k in known() if k[0] == ctx.id}
    for i in indices:
        if found is not None:
            if any(v['sig'] not in ks for v in ctx.viol):
                found.set()
            if found.is_set() and time.time() - t0 > 60:
                break
        if time.time() > deadline:
            ctx.cov['cut_by_time'] += 1
            break
        if len(ctx.viol) >= 8:
            break
        ctx.index = i
        rng = random.Random('%s:%d:%d' % (ctx.id, ctx.seed, i))
        try:
            mod.case(ctx, rng, i)
            ctx.cov['cases'] += 1
        except Stop:
            pass


def worker_main(pid, tier, seed, exes, scratch, indices, deadline, conn, found):
    try:
        mod = importlib.import_module('props.' + pid.lower())
        ctx = Ctx(pid, tier, seed, exes, scratch)
        if hasattr(mod, 'envs'):
            ctx.envs = mod.envs(scratch)
        run_part(mod, ctx, indices, deadline, found)
        if hasattr(mod, 'finish'):
            mod.finish(ctx)
        ctx.close()
        conn.send({'cov': dict(ctx.cov), 'distinct': ctx.distinct, 'kinds': {k: v for k, v in ctx.kinds.items()},
                   'samples': ctx.samples, 'viol': ctx.viol, 'unsure': dict(ctx.unsure), 'unsure_ex': ctx.unsure_ex})
    except BaseException:
        conn.send({'error': traceback.format_exc()})
    conn.close()


def known():
    r = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                f = dict(x.split('=', 1) for x in l.split()[1:3])
                r.append((f['property'], f['sig'], l.strip()))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-build', action='store_true', help='development only')
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.id.upper(), a.tier if a.tier in ('quick', 'thorough') else 'quick'
    mod = importlib.import_module('props.' + pid.lower())
    log = {}
    exes = {}
    kinds = getattr(mod, 'BUILDS', ['std'])
    if isinstance(kinds, dict):
        kinds = kinds[tier]
    if callable(kinds):
        kinds = kinds(tier)
    try:
        for k in kinds:
            exes[k] = B.build(k, log)
    except B.BuildError as e:
        print('ERROR', e)
        return 2
    scratch = tempfile.mkdtemp(prefix='verif-')
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        if a.replay:
            r = json.load(open(a.replay))
            ctx = Ctx(pid, r['tier'], r['seed'], exes, scratch)
            if hasattr(mod, 'envs'):
                ctx.envs = mod.envs(scratch)
            run_part(mod, ctx, [r['index']], time.time() + 1e6)
            if hasattr(mod, 'finish'):
                mod.finish(ctx)
            ctx.close()
            for v in ctx.viol:
                print(v['sig'])
                print(v['text'])
            print('reproduced' if ctx.viol else 'not reproduced', dict(ctx.unsure))
            return 1 if ctx.viol else 0
        n, floor, cap = mod.PLAN[tier]
        if a.cases:
            n, floor = a.cases, 0
        jobs = max(1, min(a.jobs, n))
        jobs = min(jobs, getattr(mod, 'JOBS', jobs))
        deadline = time.time() + cap
        procs, found = [], mp.Event()
        for j in range(jobs):
            rd, wr = mp.Pipe(False)
            p = mp.Process(target=worker_main, args=(pid, tier, a.seed, exes, scratch, range(j, n, jobs), deadline, wr, found))
            p.start()
            wr.close()
            procs.append((p, rd))
        cov = collections.Counter()
        distinct, kinds_, samples, viol, unsure, uex = set(), collections.defaultdict(set), [], [], collections.Counter(), {}
        errors = []
        for p, rd in procs:
            try:
                r = rd.recv()
            except EOFError:
                r = {'error': 'worker ended without a report'}
            p.join()
            if 'error' in r:
                errors.append(r['error'])
                continue
            cov.update(r['cov'])
            distinct |= r['distinct']
            for k, v in r['kinds'].items():
                kinds_[k] |= v
            samples += r['samples']
            viol += r['viol']
            unsure.update(r['unsure'])
            uex.update(r['unsure_ex'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ks = [k for k in known() if k[0] == pid]
    new, old = [], {}
    for v in sorted(viol, key=lambda v: v['index']):
        for k in ks:
            if k[1] == v['sig']:
                old[k[1]] = k[2]
                break
        else:
            new.append(v)
    coverage = {'evaluations': cov.get('evaluations', 0), 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
                'samples': samples[:4] or ['none'],
                'observed': {k: v for k, v in sorted(cov.items()) if k != 'evaluations'},
                'kinds': {k: sorted(map(str, v))[:80] for k, v in sorted(kinds_.items())},
                'inconclusive': dict(unsure), 'build': log}
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': getattr(mod, 'ASSUMES', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    for _, l in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, l.split(' ', 3)[3]))
    if unsure:
        print('inconclusive:', dict(unsure))
        for k, v in uex.items():
            print('  e.g.', k, ':', str(v)[:1500])
    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d events, %.1f s' % (
        pid, tier, a.seed, cov['cases'], cov['evaluations'], len(distinct), cov['events'], time.time() - t0))
    if new:
        sigs = collections.OrderedDict()
        for v in new:
            sigs.setdefault(v['sig'], v)
        for j, (sig, v) in enumerate(list(sigs.items())[:5]):
            path = os.path.join(evdir, '%s-violation-%d.json' % (pid, j))
            json.dump({'property': pid, 'tier': tier, 'seed': a.seed, 'index': v['index'], 'sig': sig, 'text': v['text'],
                       'ops': v['ops'], 'replay': 'python3 check.py %s --replay %s' % (pid, path)},
                      open(path, 'w'), indent=1, ensure_ascii=False)
            print('--', sig)
            print(v['text'][:3000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('ERROR', errors[0])
        return 2
    if len(distinct) < floor:
        print('ERROR: only %d distinct non-trivial observations, %d needed' % (len(distinct), floor))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
