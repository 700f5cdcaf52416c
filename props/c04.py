"""Every processing step adds to the HISTORY of each frame it returns, on every path, and keeps the earlier entries."""
from .common import *
from .c02 import frames_of

# steps whose entry has to identify the calibration they applied (by its file name or its value)
IDENTIFY = {'detect_cosmic_rays': ['detector_params'], 'correct_nonlinearity': ['non_lin_correction'],
            'dark_subtraction': ['dark'], 'flat_division': ['flat_field'], 'convert_to_electrons': ['k_gain'],
            'convert_to_flux': ['fluxcal_factor'], 'create_bad_pixel_map': ['master_dark', 'master_flat']}
NOT_STEPS = ('corgidrp.l4_to_tda.find_source',)


def looks(R, f):
    """What a frame is made of: value numbers of its planes, values of its header keywords (stamps of the copy aside)."""
    st, o = R.st, R.st.heap[f]
    planes = tuple(plane(R, o.attrs[p]) for p in ('data', 'err', 'dq') if p in o.attrs)
    keys = []
    for h in ('pri_hdr', 'ext_hdr'):
        for x in o.attrs[h].objs:
            hd = st.heap[x]
            keys += [(h, k, v[1], v[0].consts, E0 if v[0].objs else v[0].tags) for k, v in hd.items.items()]
    n = tuple(len(st.heap[x].items) if st.heap[x].items is not None else -1 for x in o.attrs['hdu_list'].objs)
    return planes, frozenset(keys), n


def plane(R, av):
    v = R.I.models.vn_of(R.st, av)
    if v is not None or len(av.objs) != 1:
        return v
    o = R.st.heap[next(iter(av.objs))]
    if o.kind != 'array' or o.items is None:
        return None
    vs = [plane(R, x) for x in o.items]
    return None if None in vs else tuple(vs)


def snapshot(R, a):
    return {looks(R, f) for av in a.values() for f in frames_of(R, av)}


def hist_of(R, f):
    """(kept, least number of entries added, has an update whose target is not exact, texts) of a frame's header."""
    st = R.st
    res = []
    for x in st.heap[f].attrs['ext_hdr'].objs:
        o = st.heap[x]
        h = o.hist or (False, 0, E0)
        weak = any(t[0] == '~weak' for t in h[2])
        tags = {t.split('.')[0] for e in h[2] for t in e[1]}
        res.append((h[0], h[1], weak, sorted(str(t[0]) for t in h[2] if t[0] != '~weak'), sorted(tags)))
    return res


def task(ctx, it):
    kind, name, choose = it
    snap = set()

    def before(R, a):
        snap.update(snapshot(R, a))
    R, out = run_root(ctx, name, before=before, choose=choose)
    if out is None:
        return {'ret': False}
    res = []
    for f in frames_of(R, out):
        if kind == 'step' and looks(R, f) in snap and None not in looks(R, f)[0]:
            res.append(('same', None))
            continue
        for h in hist_of(R, f):
            res.append(('frame', h))
    return {'ret': True, 'frames': res, 'summary': [bool(R.st.heap[f].summary) for f in frames_of(R, out)]}


def check(ctx):
    creators = [f for f in entry_points(ctx, ('creators',), extra_steps=False)]
    steps = [f for f in entry_points(ctx, ('steps',)) if f not in creators and f not in NOT_STEPS]
    items = [(k, f, c) for k, fs in (('step', steps), ('creator', creators)) for f in fs
             for c in args.choices(ctx.repo, find(ctx, f))]
    out = ctx.pmap(task, items)
    for (kind, name, choose), r in results(ctx, items, out):
        if not r['ret']:
            continue
        ctx.count('option_combinations')
        for tag, h in r['frames']:
            if tag == 'same':
                ctx.count('frames_left_as_they_were')
                if os.environ.get('VERIF_DEBUG'):
                    print('SAME', name, choose)
                continue
            ctx.count('result_frames')
            kept, n, weak, texts, tags = h
            nm, where = short(name), ctx.repo.loc(find(ctx, name))
            opt = ', '.join('%s=%s' % (k, v if isinstance(v, str) else v.concrete()) for k, v in sorted(choose.items()))
            if os.environ.get('VERIF_DEBUG'):
                print(nm, opt, h)
            if n == 0 and not (weak and texts):
                ctx.add(nm + '|none', '%s returns a frame without a new HISTORY entry on some path%s' % (
                    nm, ' (%s)' % opt if opt else ''), where)
            if kind == 'step' and not kept:
                ctx.add(nm + '|lost', '%s returns a frame whose header does not carry the HISTORY of its input%s' % (
                    nm, ' (%s)' % opt if opt else ''), where)
            for p in IDENTIFY.get(name.split('.')[-1], ()):
                if p in [q.name for q in args.params(ctx.repo, find(ctx, name))]:
                    ctx.count('calibration_references')
                    if texts and p not in tags:
                        ctx.add('%s|names|%s' % (nm, p), '%s: no HISTORY entry identifies the calibration it applied (%s)%s' % (
                            nm, p, ' (%s)' % opt if opt else ''), where)
    ctx.need('result_frames', 60)
    ctx.need('calibration_references', 6)
    ctx.explain.append('For each step and builder, and each combination of its boolean options and product classes, the '
                       'header of every returned frame must descend from an input header whose HISTORY was never removed, '
                       'and have gained at least one entry on every path that returns.')
    ctx.assumptions.append('an update through a reference that may denote several frames counts as an entry for each')
