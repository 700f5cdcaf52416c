"""A dataset's cubes and its frames are two views of the same pixels."""
from .common import *

PAIRS = (('all_data', 'data'), ('all_err', 'err'), ('all_dq', 'dq'))


def datasets_in(R, av):
    st = R.st
    return [oid for oid in R.I.reach(st, [('r', av)]) if st.heap[oid].kind == 'inst' and
            'all_data' in st.heap[oid].attrs and 'frames' in st.heap[oid].attrs]


def frame_list(R, d):
    """Frames of dataset object d as a list of AVs, or None if their number is not tracked."""
    st = R.st
    fr = st.heap[d].attrs['frames']
    if len(fr.objs) != 1:
        return None
    o = st.heap[next(iter(fr.objs))]
    return list(o.items) if o.items is not None else None


def incoherent(R, av):
    """-> (pairs checked, [(cube, frame index)])."""
    st, m = R.st, R.I.models
    n, bad = 0, []
    for d in datasets_in(R, av):
        fl = frame_list(R, d)
        if fl is None:
            continue
        for cube, attr in PAIRS:
            c = st.heap[d].attrs.get(cube, ANY)
            if len(c.objs) != 1 or c.any:
                continue
            co = st.heap[m.base_of(st, next(iter(c.objs)))]
            for i, f in enumerate(fl):
                if len(f.objs) != 1 or f.any:
                    continue
                a = st.heap[next(iter(f.objs))].attrs.get(attr)
                if a is None or a.any or not a.objs:
                    continue
                if co.items is not None and len(co.items) == len(fl):
                    want = co.items[i]
                    if want.any or not want.objs:
                        continue
                    n += 1
                    if not (closure(R, a) & closure(R, want)):
                        bad.append((cube, attr, i))
                elif co.items is None and c.objs:
                    # cube without tracked planes: the frame has to be a view of it
                    n += 1
                    if not ({m.base_of(st, x) for x in a.objs} & {m.base_of(st, next(iter(c.objs)))}):
                        bad.append((cube, attr, i))
    return n, bad


def closure(R, av):
    """Array objects of a value, following views to their storage."""
    m, st = R.I.models, R.st
    return {m.base_of(st, x) for x in av.objs} | set(av.objs)


def task(ctx, it):
    kind, name = it
    I = ctx.I
    if kind == 'root':
        best = [0, []]
        for layers in (1, 2):
            R, out = run_root(ctx, name, err_layers=layers)
            if out is None:
                continue
            n, bad = incoherent(R, out)
            best[0] += n
            best[1] += bad
        return best
    R = Run(I)
    with R.quiet():
        ds = R.dataset([R.image('in.f%d' % k, err_layers=2) for k in range(2)])
    sh3 = (2, 'R', 'C')
    new = lambda k, lin=None: I.mkarr(R.st, FakeNode(), items=tuple(R.array('new.%s%d' % (k, i), ('R', 'C')) for i in (0, 1)))
    newerr = I.mkarr(R.st, FakeNode(), items=tuple(
        I.mkarr(R.st, FakeNode(), items=(R.array('new.err%d' % i, ('R', 'C')),), k=i) for i in (0, 1)))
    meth = name
    target = ds
    if meth == 'update_data':
        R.call(R.attr(ds, 'update_after_processing_step'), [const('h')], {'new_all_data': new('data')})
    elif meth == 'update_err':
        R.call(R.attr(ds, 'update_after_processing_step'), [const('h')], {'new_all_err': newerr})
    elif meth == 'update_dq':
        R.call(R.attr(ds, 'update_after_processing_step'), [const('h')], {'new_all_dq': new('dq')})
    elif meth == 'update_all':
        R.call(R.attr(ds, 'update_after_processing_step'), [const('h')],
               {'new_all_data': new('data'), 'new_all_err': newerr, 'new_all_dq': new('dq')})
    elif meth == 'add_error_term':
        R.call(R.attr(ds, 'add_error_term'), [new('e'), const('x')], {})
    elif meth == 'add_error_term_2d':
        R.call(R.attr(ds, 'add_error_term'), [R.array('new.e', ('R', 'C')), const('x')], {})
    elif meth == 'rescale_error':
        R.call(R.attr(ds, 'rescale_error'), [new('e'), const('x')], {})
    elif meth == 'rescale_error_2d':
        R.call(R.attr(ds, 'rescale_error'), [R.array('new.e', ('R', 'C')), const('x')], {})
    elif meth == 'copy':
        target = R.call(R.attr(ds, 'copy'), [], {})
    elif meth == 'copy_headers':
        target = R.call(R.attr(ds, 'copy'), [], {'copy_data': FALSE})
    elif meth == 'copy_parent':
        R.call(R.attr(ds, 'copy'), [], {'copy_data': FALSE})
    elif meth == 'slice':
        R.I.models.get_item(R.st, ds, I.mklist(R.st, FakeNode(), [const(0)]), FakeNode())
    elif meth == 'split':
        target = R.call(R.attr(ds, 'split_dataset'), [I.mklist(R.st, FakeNode(), [const('OBSNUM')])], {})
    elif meth == 'split_parent':
        R.call(R.attr(ds, 'split_dataset'), [I.mklist(R.st, FakeNode(), [const('OBSNUM')])], {})
    if target is None:
        return None
    return list(incoherent(R, target))


OPS = ('init', 'update_data', 'update_err', 'update_dq', 'update_all', 'add_error_term', 'add_error_term_2d', 'rescale_error',
       'rescale_error_2d', 'copy', 'copy_headers', 'copy_parent', 'slice', 'split', 'split_parent')


def check(ctx):
    items = [('op', o) for o in OPS] + [('root', f) for f in entry_points(ctx, ('steps',))]
    out = ctx.pmap(task, items)
    for (kind, name), (n, bad) in results(ctx, items, out):
        ctx.count('roots')
        ctx.count('frame_plane_pairs', n)
        if os.environ.get('VERIF_DEBUG'):
            print(kind, name, n, bad)
        for cube, attr, i in bad:
            nm = short(name) if kind == 'root' else 'Dataset:' + name
            ctx.add('%s|%s' % (nm, attr), "%s: frame %d's %s is not the plane of the dataset's %s" % (nm, i, attr, cube),
                    ctx.repo.loc(find(ctx, name)) if kind == 'root' else 'corgidrp/data.py')
    ctx.need('frame_plane_pairs', 100)
    ctx.explain.append('For every dataset in the result of each processing step, and for the dataset after each of its own '
                       'operations, frame i must hold the storage of plane i of the data, error and DQ cubes.')
    ctx.assumptions.append('two frames stand for any number of frames')
