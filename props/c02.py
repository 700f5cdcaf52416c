"""Results share no mutable storage with the inputs they were made from."""
from .common import *


def shared(R, out):
    """(path in the result, input path, kind) for every result object that is, or is a view of, an input object."""
    I, st = R.I, R.st
    res = []
    for oid, path in I.reach(st, [('result', out)]).items():
        o = st.heap.get(oid)
        b = I.models.base_of(st, oid) if o.kind == 'array' else oid
        bo = st.heap.get(b)
        if bo is None or '_hdr[' in path or bo.origin is None or str(bo.origin).startswith('global:'):
            continue
        if bo.kind in ('array', 'header', 'inst', 'dict', 'list', 'hdu', 'hdulist', 'set'):
            res.append((strip_idx(path), strip_idx(bo.origin), bo.kind))
    return sorted(set(res))


def frames_of(R, out):
    """Distinct frame objects of the datasets in a result."""
    st = R.st
    fr = []
    for oid in R.I.reach(st, [('r', out)]):
        o = st.heap.get(oid)
        if o.kind == 'inst' and 'ext_hdr' in o.attrs and oid not in fr:
            fr.append(oid)
    return fr


def cross(R, out):
    """Mutable objects that two different frames of the result both hold."""
    st = R.st
    owner, res = {}, []
    seen = set()
    for f in frames_of(R, out):
        if st.heap[f].summary:
            continue
        # a selection may list one frame under two headings: both objects then have all their headers in common
        hdrs = tuple(st.heap[f].attrs[a].objs for a in ('pri_hdr', 'ext_hdr', 'err_hdr', 'dq_hdr', 'hdu_list')
                     if a in st.heap[f].attrs)
        if hdrs in seen:
            continue
        seen.add(hdrs)
        for oid, path in R.I.reach(st, [('frame', obj(f))]).items():
            o = st.heap.get(oid)
            if o.kind not in ('header', 'hdu', 'hdulist', 'list', 'dict', 'array') or o.summary:
                continue
            if '_hdr[' in path or o.origin is not None and str(o.origin).startswith('global:'):
                continue
            if oid in owner and owner[oid] != f:
                res.append((strip_idx(path), o.kind))
            owner[oid] = f
    return sorted(set(res))


def task(ctx, it):
    kind, name = it
    if kind == 'root':
        R, out = run_root(ctx, name)
    else:
        R = Run(ctx.I)
        cls, meth, flag = name
        with R.quiet():
            o = R.dataset([R.image('in.f%d' % k) for k in range(2)]) if cls == 'Dataset' else \
                R.image('in') if cls == 'Image' else args.product(R, cls, 'in')
            R.mark('self', o)
        out = R.call(R.attr(o, meth), [], {'copy_data': const(flag)})
    if out is None:
        return {'ret': False}
    sh = shared(R, out)
    if kind == 'copy' and cls != 'Dataset' and not flag:
        # a header-only copy shares the pixel arrays by contract
        sh = [x for x in sh if x[2] != 'array']
    return {'ret': True, 'shared': sh, 'cross': cross(R, out), 'frames': len(frames_of(R, out)),
            'objs': len(R.I.reach(R.st, [('r', out)]))}


COPIES = [(c, 'copy', f) for c in ('Dataset', 'Image', 'Dark', 'FlatField', 'KGain', 'NonLinearityCalibration', 'BadPixelMap',
                                   'DetectorNoiseMaps', 'AstrometricCalibration', 'TrapCalibration', 'FluxcalFactor',
                                   'CoreThroughputCalibration', 'NDFilterSweetSpotDataset') for f in (True, False)]


def check(ctx):
    items = [('root', f) for f in entry_points(ctx, ('steps', 'creators'))] + [('copy', c) for c in COPIES]
    out = ctx.pmap(task, items)
    for (kind, name), r in results(ctx, items, out):
        if not r['ret']:
            continue
        nm = short(name) if kind == 'root' else '%s.copy(copy_data=%s)' % (name[0], name[2])
        where = ctx.repo.loc(find(ctx, name)) if kind == 'root' else 'corgidrp/data.py'
        ctx.count('entry_points' if kind == 'root' else 'copy_variants')
        ctx.count('result_objects', r['objs'])
        ctx.count('result_frames', r['frames'])
        for path, orig, k in r['shared']:
            ctx.add('%s|%s|%s' % (nm, path, orig), '%s: %s shares its %s with the input %s' % (nm, path, k, orig), where)
        for path, k in r['cross']:
            ctx.add('%s|frames|%s' % (nm, path), '%s: two frames of the result hold the same %s (%s)' % (nm, k, path), where)
    ctx.need('entry_points', 35)
    ctx.need('copy_variants', 10)
    ctx.explain.append('For each processing step, calibration builder and copy method the result of the abstract run is '
                       'walked; any array storage, header, extension, list or dictionary in it that is an input object '
                       '(directly or through a numpy view), or that two result frames hold in common, is reported.')
    ctx.assumptions.append('library calls return fresh storage unless the models say they return a view')
