"""Processing functions never modify what they are given (frames, headers, extensions, calibration products, arrays).

Each public entry point is interpreted abstractly on inputs whose every reachable object carries an origin path; an
in-place change of an object with an origin, on any path and through any call chain or alias, is a violation."""
from .common import *

# documented to record the matched sources in the header of the image handed in / to set the output name on save
ALLOWED_ROOTS = ()


def repoint_only(ev):
    """Building a data cube re-points its frames at equal-valued slices of the cube (documented design)."""
    path, how, kind = ev.detail
    if kind == 'inst' and how in ('attr data', 'attr err', 'attr dq'):
        return any('Dataset.__init__' in c for c in ev.chain)
    return False


def events(R):
    out = []
    for ev in R.I.mutations.values():
        if repoint_only(ev):
            continue
        path, how, kind = ev.detail
        if str(path).startswith('global:'):
            continue
        out.append((strip_idx(path), how if not how.startswith('key ') else 'key', kind, ev.chain))
    return out


def task(ctx, it):
    kind, name = it
    I = ctx.I
    if kind == 'func':
        R, out = run_root(ctx, name)
        return {'muts': events(R), 'ret': out is not None, 'steps': I.nsteps}
    if kind == 'ctor':
        R = Run(I)
        c = R.cls(name)
        if c is None:
            return None
        with R.quiet():
            kw = {n: R.mark(n, v) for n, v in ctor_args(R, ctx, name).items()}
        I.max_steps = MAX_STEPS
        out = R.call('corgidrp.data.' + name, [], kw)
        return {'muts': events(R), 'ret': out is not None, 'steps': I.nsteps}
    if kind == 'method':
        cls, meth = name.split('.')
        R = Run(I)
        with R.quiet():
            ds = R.dataset([R.image('in.f%d' % k) for k in range(2)])
            o = ds if cls == 'Dataset' else R.image('in')
            R.mark('self', o)
            av = {'Dataset.split_dataset': dict(prihdr_keywords=R.I.mklist(R.st, FakeNode(), [const('OBSNUM')]))}.get(name, {})
        R.call(R.attr(o, meth), [], av)
        return {'muts': events(R), 'ret': True, 'steps': I.nsteps}


METHODS = ('Dataset.copy', 'Dataset.split_dataset', 'Image.copy', 'Image.get_masked_data', 'Image.get_hash')


def check(ctx):
    items = [('func', f) for f in entry_points(ctx, ('products', 'arrays'))]
    items += [('ctor', c) for c in data_classes(ctx)] + [('method', m) for m in METHODS]
    out = ctx.pmap(task, items)
    for (kind, name), r in results(ctx, items, out):
        ctx.count('entry_points')
        ctx.count('abstract_steps', r['steps'])
        if r['ret']:
            ctx.count('entry_points_with_normal_return')
        for path, how, k, chain in r['muts']:
            ctx.add('%s|%s|%s' % (short(name), path, how.split(' ')[0]),
                    '%s changes its input in place: %s (%s of %s)' % (short(name), path, how, k),
                    chain[0] if chain else '', chain)
        if len(ctx.samples) < 12 and kind == 'func':
            ctx.samples.append('%s: %d steps, %d in-place changes of inputs' % (short(name), r['steps'], len(r['muts'])))
    ctx.need('entry_points', 60)
    ctx.explain.append('Each entry point was interpreted over abstract inputs (two frames, every calibration product it '
                       'documents, unknown header keys); every store, augmented assignment, mutating method or numpy '
                       'out= reaching an object that came in as an argument is reported with its call chain.')
    ctx.assumptions += ['library calls change only the arguments the models list',
                        'two frames stand for any number of frames']
