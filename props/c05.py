"""Data levels: each level update takes frames of one level only, relabels every frame, and nothing else changes the level."""
from .common import *
from .c02 import frames_of
from .c04 import plane

CHAIN = {'corgidrp.l1_to_l2a.update_to_l2a': ('L1', 'L2a', '_L1_', '_L2a'),
         'corgidrp.l2a_to_l2b.update_to_l2b': ('L2a', 'L2b', '_L2a', '_L2b'),
         'corgidrp.l2b_to_l3.update_to_l3': ('L2b', 'L3', '_L2b', '_L3_'),
         'corgidrp.l3_to_l4.update_to_l4': ('L3', 'L4', '_L3_', '_L4_'),
         'corgidrp.l4_to_tda.update_to_tda': ('L4', 'TDA', '_L4_', '_TDA_')}
LEVELS = ('L1', 'L2a', 'L2b', 'L3', 'L4', 'TDA', 'CAL', 'l1', 'L2', '')
# results of these are new products, not the frames they were given
OTHER_PRODUCT = ('get_pc_mean', 'find_source')


def run_levels(ctx, name, levels, fname, choose=None):
    I = ctx.I
    R = Run(I)
    node = find(ctx, name)
    ps = args.params(ctx.repo, node)
    with R.quiet():
        fr = []
        for i, l in enumerate(levels):
            kw = {} if l is None else {'ext': {'DATALVL': l}}
            f = R.image('input_dataset.f%d' % i, absent_ext=('DATALVL',) if l is None else (), **kw)
            o = R.st.heap[next(iter(f.objs))]
            R.st.heap[next(iter(f.objs))] = o.repl(attrs=dict(o.attrs, filename=const(fname)))
            fr.append(f)
        ds = R.dataset(fr)
        a = args.build(R, ctx.repo, node, over={ps[0].name: ds}, choose=choose)
        before = [tuple(plane(R, R.st.heap[f].attrs[p]) for p in ('data', 'err', 'dq')) for f in frames_of(R, ds)]
    I.max_steps = MAX_STEPS
    out = R.call(name, [], a)
    I.max_steps = None
    return R, out, before


def level_of(R, f):
    """Possible DATALVL values of a frame as a set, or None when unknown."""
    vals = set()
    for x in R.st.heap[f].attrs['ext_hdr'].objs:
        v, p = R.I.models.hdr_read(R.st.heap[x], 'DATALVL')
        c = v.concrete()
        if c is None:
            return None
        vals |= set(c)
        if p != 'y':
            vals.add('<missing>')
    return vals


def task(ctx, it):
    kind, name, levels = it
    if kind == 'gate':
        exp, new, a, b = CHAIN[name]
        choices = args.choices(ctx.repo, find(ctx, name))
        res = []
        for ch in choices:
            fname = 'CGI_02000_20250415T0305102%s%s' % (a, '.fits' if not a.endswith('_') else 'x.fits')
            R, out, before = run_levels(ctx, name, levels, fname, ch)
            ok = all(l == exp for l in levels)
            if out is None:
                res.append(('raised', ok, None))
                continue
            fr = frames_of(R, out)
            lv = [level_of(R, f) for f in fr]
            same = [tuple(plane(R, R.st.heap[f].attrs[p]) for p in ('data', 'err', 'dq')) for f in fr]
            names = [R.st.heap[f].attrs['filename'].concrete() for f in fr]
            want = fname.replace(a, b, 1)
            res.append(('returned', ok, dict(levels=[sorted(x) if x is not None else None for x in lv], n=len(fr),
                                             names=names, want=want,
                                             planes=[x == y for x, y in zip(same, before) if None not in x and None not in y])))
        return res
    R, out = run_root(ctx, name, ext={'DATALVL': levels[0]})
    if out is None:
        return None
    return [(sorted(level_of(R, f)) if level_of(R, f) is not None else None) for f in frames_of(R, out)]


def check(ctx):
    items = []
    for name, (exp, new, a, b) in CHAIN.items():
        if find(ctx, name) is None:
            raise CheckError('%s not found' % name)
        items.append(('gate', name, (exp, exp)))
        for l in LEVELS + (None,):
            if l != exp:
                items += [('gate', name, (l, l)), ('gate', name, (exp, l)), ('gate', name, (l, exp)),
                          ('gate', name, (exp, exp, l)), ('gate', name, (l, exp, exp))]
    creators = entry_points(ctx, ('creators',), extra_steps=False)
    for f in entry_points(ctx, ('steps',)):
        if f in CHAIN or f in creators or f.split('.')[-1] in OTHER_PRODUCT or \
                args.params(ctx.repo, find(ctx, f))[0].classes != ['Dataset']:
            continue
        for l in ('L1', 'L2a', 'L2b', 'L3', 'L4', 'TDA'):
            items.append(('keep', f, (l, l)))
    out = ctx.pmap(task, items)
    passed = set()
    for (kind, name, levels), r in results(ctx, items, out):
        nm, where = short(name), ctx.repo.loc(find(ctx, name))
        if kind == 'gate':
            exp, new, a, b = CHAIN[name]
            for how, ok, d in r:
                ctx.count('level_combinations')
                if how == 'returned' and not ok:
                    ctx.add('%s|accepts' % nm, '%s accepts frames at levels %s (only %s is allowed)' % (nm, list(levels), exp), where)
                if how == 'returned' and ok:
                    passed.add(name)
                    if d['n'] != len(levels):
                        ctx.add('%s|frames' % nm, '%s returns %d frames for %d' % (nm, d['n'], len(levels)), where)
                    for x in d['levels']:
                        if x is not None and x != [new]:
                            ctx.add('%s|level' % nm, '%s leaves a frame at level %s instead of %s' % (nm, x, new), where)
                    for x in d['names']:
                        if x is not None and x != [d['want']]:
                            ctx.add('%s|name' % nm, '%s names a frame %s instead of %s' % (nm, x, d['want']), where)
                    for x in d['planes']:
                        ctx.count('frames_compared')
                        if not x:
                            ctx.add('%s|pixels' % nm, '%s changes pixels, errors or flags while relabelling' % nm, where)
        else:
            ctx.count('steps_at_level')
            for x in r:
                if x is not None:
                    ctx.count('frames_at_level')
                    if x != [levels[0]]:
                        ctx.add('%s|level' % nm, '%s turns level %s into %s' % (nm, levels[0], x), where)
    for name in CHAIN:
        if name not in passed:
            ctx.add('%s|never' % short(name), '%s never returns for frames at the level it is for' % short(name),
                    ctx.repo.loc(find(ctx, name)))
    ctx.need('level_combinations', 100)
    ctx.need('frames_at_level', 100)
    ctx.explain.append('Each level update is interpreted for every combination of levels (also absent ones) of two and three '
                       'frames: it must have no path that returns unless all are at its level, and on return every frame '
                       'has the new level, the renamed file and unchanged planes; every other step is interpreted at each '
                       'level and must return its frames at that level.')
