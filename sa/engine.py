"""Shared machinery of the checks: loading, parallel roots, reporting, evidence, known findings."""
import ast
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Finding:
    """A construct of the current source that breaks a property."""

    def __init__(self, key, msg, where='', chain=()):
        self.key = key
        self.msg = msg
        self.where = where
        self.chain = list(chain)

    def text(self):
        s = self.msg
        if self.where:
            s += ' at ' + self.where
        return s


class CheckError(Exception):
    """The check cannot give an answer (it exits 2)."""


class Ctx:
    def __init__(self, tier='quick'):
        self.tier = tier
        self.t0 = time.time()
        self.findings = []
        self.coverage = {}
        self.explain = []
        self.samples = []
        self.assumptions = []
        self.skipped = []
        self._repo = None
        self._I = None

    # ------------------------------------------------------------ program under analysis
    @property
    def repo(self):
        if self._repo is None:
            from .core import Repo
            self._repo = Repo(REPO)
        return self._repo

    @property
    def I(self):
        if self._I is None:
            sys.setrecursionlimit(20000)
            from .interp import Interp
            self._I = Interp(self.repo)
        return self._I

    # ------------------------------------------------------------ results
    def add(self, key, msg, where='', chain=()):
        for f in self.findings:
            if f.key == key:
                return
        self.findings.append(Finding(key, msg, where, chain))

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def need(self, name, minimum):
        """Vacuity guard: the run must have looked at enough instances to mean something."""
        if self.coverage.get(name, 0) < minimum:
            raise CheckError('only %d %s analysed (at least %d expected): the analysis no longer reaches the code'
                             % (self.coverage.get(name, 0), name, minimum))

    # ------------------------------------------------------------ parallel roots
    def pmap(self, fn, items):
        """fn(ctx_like_worker, item) -> picklable result, over all items; workers inherit the loaded program."""
        items = list(items)
        self.I
        global _W
        _W = (self, fn, items)
        n = min(8, os.cpu_count() or 1, max(1, len(items)))
        if n == 1 or os.environ.get('VERIF_SERIAL'):
            return [_work(i) for i in range(len(items))]
        with multiprocessing.get_context('fork').Pool(n) as p:
            return p.map(_work, range(len(items)), chunksize=1)


_W = None
TASK_SECONDS = 150


def _late(*a):
    raise TimeoutError('root took too long')


def _work(i):
    ctx, fn, items = _W
    try:
        signal.signal(signal.SIGALRM, _late)
        signal.alarm(TASK_SECONDS)
        try:
            return ('ok', fn(ctx, items[i]))
        finally:
            signal.alarm(0)
    except Exception as e:
        return ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc())


def results(ctx, items, out):
    """Pairs (item, result) of the roots that were analysed; the rest is counted as not analysed."""
    good = []
    for it, r in zip(items, out):
        if r[0] == 'ok' and r[1] is not None:
            good.append((it, r[1]))
        else:
            name = it if isinstance(it, str) else str(it)
            ctx.skipped.append(name[:120])
            if os.environ.get('VERIF_DEBUG'):
                print('SKIP', name, r[1:], file=sys.stderr)
    return good


# ---------------------------------------------------------------- known findings
def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=C01 key=<key> | <text>
                body, _, text = line[len('known:'):].partition(' | ')
                parts = body.strip().split(' ', 1)
                prop = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1].strip()
                out[(prop, key)] = text.strip()
    return out


def main(prop, tier, mod):
    ctx = Ctx(tier)
    err = None
    try:
        mod.check(ctx)
    except CheckError as e:
        err = str(e)
    kn = known()
    new, old = [], []
    for f in ctx.findings:
        (old if (prop, f.key) in kn else new).append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(ctx.coverage)
    cov['explanation'] = ' '.join(ctx.explain) or mod.__doc__ or prop
    if ctx.samples:
        cov['samples'] = ctx.samples[:40]
    cov['not_analysed'] = ctx.skipped
    cov['known_findings'] = [f.key for f in old]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new),
          'assumptions': ctx.assumptions}
    if err:
        ev['coverage']['error'] = err
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, f.text()))
    if new:
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write('%s\n  key: %s\n' % (f.text(), f.key))
                for c in f.chain:
                    fh.write('    via %s\n' % (c,))
            fh.write('\nre-run: python3 %s %s --tier %s\n' % (os.path.join(VERIF, 'check.py'), prop, tier))
        for f in new[:20]:
            print('%s [%s]' % (f.text(), f.key))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        print('ERROR property=%s %s' % (prop, err))
        return 2
    print('OK property=%s %s' % (prop, ', '.join('%s=%s' % (k, v) for k, v in ctx.coverage.items()
                                                 if isinstance(v, int))))
    return 0
