"""Calibration products: each carries its own type and level, is read back only as what it is, and nothing else."""
from .common import *

LAST = 'CGI_0200001999001000%03d_20250415T030510%d_L2a.fits'
WRONG = ('<missing>', 'Image', 'Sci', 'bogus')
EXTRA = {'CoreThroughputCalibration': ('CTEXCAM', 'CTFPAM', 'CTFSAM'), 'KGain': ('ERR', 'DQ', 'PTC')}


def named_frames(R, names, parents=None, **kw):
    """Frames with known file names; parents: index -> names already recorded in that frame."""
    fr = []
    for i, nm in enumerate(names):
        par = (parents or {}).get(i)
        ext = dict(kw.get('ext') or {})
        if par is not None:
            ext['DRPNFILE'] = len(par)
            for j, p in enumerate(par):
                ext['FILE%d' % j] = p
        f = R.image('in%d' % i, ext=ext, absent_ext=() if par is not None else ('DRPNFILE',))
        o = R.st.heap[next(iter(f.objs))]
        R.st.heap[next(iter(f.objs))] = o.repl(attrs=dict(o.attrs, filename=const(nm)))
        fr.append(f)
    return fr


def card(R, hdr, key):
    """Possible values of a card as a set (with '<missing>'), or None when unknown."""
    vals = set()
    for x in hdr.objs:
        v, p = R.I.models.hdr_read(R.st.heap[x], key)
        if p != 'n':
            c = v.concrete()
            if c is None:
                return None
            vals |= set(c)
        if p != 'y':
            vals.add('<missing>')
    return vals


def products(R, out):
    return [R.st.heap[x] for x in sorted(out.objs) if R.st.heap[x].kind == 'inst'] if out is not None else []


def cards(R, o, keys):
    return {k: card(R, o.attrs['ext_hdr'], k) for k in keys}


def virtual_file(R, cls, dtype, path='/data/product.fits'):
    """A file on the virtual disk holding a product whose DATATYPE card is `dtype`."""
    I, st = R.I, R.st
    keys = {'EXTNAME': 'PSFCUBE'} if cls == 'CoreThroughputCalibration' else {}
    if dtype != '<missing>':
        keys['DATATYPE'] = dtype
    sh = args.CAL_SHAPES.get(cls, ('R', 'C'))

    def hdu(name, shape, keys=None, absent=(), prim=False):
        kw = {'header': R.header('file.' + name, dict(keys or {}, **({} if prim else {'EXTNAME': name})), absent=absent)}
        if not prim:
            kw.update(data=R.array('file.' + name, shape))
        return next(iter(I.models.hdu_new(st, 'PrimaryHDU' if prim else 'ImageHDU', [], kw, FakeNode()).objs))
    hs = [hdu('PRIMARY', None, prim=True),
          hdu(keys.get('EXTNAME', 'SCI'), sh, keys, ('DATATYPE',) if dtype == '<missing>' else ())]
    hs.append(hdu('ERR', (1,) + tuple(sh)))
    hs.append(hdu('DQ', sh))
    if cls == 'KGain':
        hs.append(hdu('PTC', ('NK', 2)))
    for nm in EXTRA.get(cls, ()) if cls == 'CoreThroughputCalibration' else ():
        hs.append(hdu(nm, (3, 'NP') if nm == 'CTEXCAM' else ('N3',)))
    I.models.vfs[path] = tuple(hs)
    return path


def classname(R, out):
    return sorted({R.st.heap[o.cls].extra.name for o in products(R, out) if o.cls is not None}) if out is not None else None


def task(ctx, it):
    kind, cls = it[:2]
    if kind == 'new':
        R = Run(ctx.I)
        with R.quiet():
            ds = R.dataset(named_frames(R, [LAST % (i, i) for i in range(2)]))
        if it[2] == 'bare':
            kw = ctor_args(R, ctx, cls, dataset=ds, absent=('DRPNFILE', 'DATATYPE', 'DATALVL'))
        else:
            # headers copied from an input frame, as builders do
            kw = ctor_args(R, ctx, cls, dataset=ds, keys={'DATATYPE': 'Image' if it[2] == 'frame' else 'Dark' if cls != 'Dark' else 'KGain',
                                                          'DATALVL': 'L2a'}, absent=('DRPNFILE',))
        out = R.call('corgidrp.data.' + cls, [], kw)
        return [(cards(R, o, ('DATATYPE', 'DATALVL', 'DRPVERSN', 'DRPCTIME')), o.attrs['filename'].concrete())
                for o in products(R, out)]
    if kind == 'read':
        R = Run(ctx.I)
        with R.quiet():
            path = virtual_file(R, cls, it[2])
        out = R.call('corgidrp.data.' + cls, [const(path)])
        return classname(R, out) or False
    if kind == 'auto':
        R = Run(ctx.I)
        with R.quiet():
            path = virtual_file(R, cls, cls if cls != 'Image' else '<missing>')
        out = R.call('corgidrp.data.autoload', [const(path)])
        return classname(R, out) or False
    if kind == 'made':
        res = []
        for ch in args.choices(ctx.repo, find(ctx, cls)):
            R, out = run_root(ctx, cls, choose=ch)
            res += [(R.st.heap[o.cls].extra.name, cards(R, o, ('DATATYPE', 'DATALVL'))) for o in products(R, out)
                    if o.cls is not None]
        return res


def check(ctx):
    classes = data_classes(ctx)
    cal = [c for c in classes if c != 'Image' and ctor(ctx, c) is not None]
    items = [('new', c, h) for c in cal for h in ('bare', 'frame', 'product')]
    for c in cal:
        for d in classes + list(WRONG):
            items.append(('read', c, d))
    items += [('auto', c) for c in classes]
    items += [('made', f) for f in entry_points(ctx, ('creators',), extra_steps=False)]
    suffixes = {}
    for it, r in results(ctx, items, ctx.pmap(task, items)):
        kind, c = it[:2]
        node = ctor(ctx, c) if kind in ('new', 'read') else find(ctx, 'corgidrp.data.autoload' if kind == 'auto' else c)
        where = ctx.repo.loc(node) if node is not None else ''
        if kind == 'new':
            if not r:
                if it[2] == 'bare':
                    raise CheckError('no way to make a new %s was found' % c)
                ctx.add('%s|unmakeable' % c, 'a new %s cannot be made from headers that carry the labels of %s'
                        % (c, 'an input frame' if it[2] == 'frame' else 'an earlier product'), where)
                continue
            ctx.count('classes_constructed')
            for d, fn in r:
                for k, want in (('DATATYPE', c), ('DATALVL', 'CAL')):
                    if d[k] != {want}:
                        ctx.add('%s|%s' % (c, k), 'a new %s has %s %s instead of %r' % (c, k, show(d[k]), want), where)
                for k in ('DRPVERSN', 'DRPCTIME'):
                    if d[k] is not None and '<missing>' in d[k]:
                        ctx.add('%s|%s' % (c, k), 'a new %s may lack the %s card' % (c, k), where)
                has_ds = 'input_dataset' in [a.arg for a in node.args.args]
                if has_ds and fn is not None:
                    ctx.count('file_names')
                    for f in fn:
                        m = re.match(re.escape((LAST % (1, 1))[:-len('_L2a.fits')]) + r'(?:_L2a)?_([A-Z]{3})_CAL\.fits$', f)
                        if not m:
                            ctx.add('%s|name' % c, 'a new %s is named %s: not its last input with a calibration suffix'
                                    % (c, f), where)
                        else:
                            suffixes.setdefault(m.group(1), set()).add(c)
        elif kind == 'read':
            ctx.count('type_checks_on_read')
            d = it[2]
            if d == c and r != [c]:
                ctx.add('%s|refused' % c, 'a %s file cannot be read as %s' % (d, c), where)
            if d != c and r:
                ctx.add('%s|accepts' % c, '%s reads a file whose DATATYPE is %s' % (c, d), where)
        elif kind == 'auto':
            ctx.count('autoloaded_types')
            if r != [c]:
                ctx.add('autoload|%s' % c, 'autoload reads a file of type %s as %s'
                        % (c, '/'.join(r) if r else 'an error'), where)
        else:
            for cn, d in r:
                ctx.count('built_products')
                if cn != 'Image' and d['DATATYPE'] is not None and d['DATATYPE'] != {cn}:
                    ctx.add('%s|DATATYPE' % short(c), '%s makes a %s with DATATYPE %s' % (short(c), cn, show(d['DATATYPE'])), where)
                if cn != 'Image' and d['DATALVL'] is not None and d['DATALVL'] != {'CAL'}:
                    ctx.add('%s|DATALVL' % short(c), '%s makes a %s with DATALVL %s' % (short(c), cn, show(d['DATALVL'])), where)
    for s, cs in suffixes.items():
        if len(cs) > 1:
            ctx.add('suffix|%s' % s, 'products of types %s are named alike (_%s_CAL)' % (', '.join(sorted(cs)), s), 'corgidrp/data.py')
    # every product class is known to the calibration database, under a label of its own
    R = Run(ctx.I)
    lab = R.st.heap[next(iter(R.st.heap[ctx.I.mods['corgidrp.caldb']].attrs['labels'].objs))]
    seen = {}
    for k, slot in lab.items.items():
        val = slot[0] if isinstance(slot, tuple) else slot
        oid = getattr(k[1], 'oid', k[1]) if isinstance(k, tuple) else k
        x = R.st.heap.get(oid)
        cn = x.extra.name if x is not None and x.kind == 'class' else str(oid)
        for t in val.concrete() or ():
            if t in seen.values():
                ctx.add('labels|%s' % t, 'two classes share the calibration database label %s' % t, 'corgidrp/caldb.py')
            seen[cn] = t
    for c in cal:
        ctx.count('database_labels')
        if c not in seen:
            ctx.add('labels|%s' % c, 'the calibration database has no label for %s' % c, 'corgidrp/caldb.py')
    ctx.need('classes_constructed', 10)
    ctx.need('type_checks_on_read', 150)
    ctx.need('built_products', 8)
    ctx.explain.append('Each calibration class is interpreted as made new (cards and file name of the result), and as read '
                       'from a virtual file of its own and of every other type (only its own may be accepted, on every path); '
                       'autoload is interpreted for a file of each type; the products of every builder are inspected.')


def show(s):
    return 'unknown' if s is None else '/'.join(sorted(map(str, s)))
