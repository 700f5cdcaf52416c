"""Provenance: every product made from several files lists all of them, and their own parents, once each."""
from .common import *
from .c02 import frames_of
from .c08 import named_frames, products, card, show, LAST

PARENTS = ['CGI_0200001999001000900_20250415T0300000_L1_.fits', 'CGI_0200001999001000901_20250415T0300001_L1_.fits',
           'CGI_0200001999001000902_20250415T0300002_L1_.fits']
N = [LAST % (i, i) for i in range(5)]
# (file names of the inputs, parents recorded in them)
CASES = [(N[:1], {}), (N[:2], {}), (N[:3], {1: PARENTS[:2]}), (N[:3], {0: PARENTS[:2], 2: PARENTS[1:]}),
         ([N[0], N[1], N[0]], {}), (N[:2], {0: [N[1]], 1: PARENTS[:1]}), (N[:2], {0: [], 1: PARENTS[:3]})]


def rename(R, f, nm):
    """A known name and no recorded parents."""
    o = R.st.heap[f]
    R.st.heap[f] = o.repl(attrs=dict(o.attrs, filename=const(nm)))
    for h in o.attrs['ext_hdr'].objs:
        ho = R.st.heap[h]
        R.st.heap[h] = ho.repl(items=dict(ho.items, DRPNFILE=(NOTHING, 'n')))


def name_inputs(R, a):
    """Names of the frames of every dataset argument; calibration products are named too."""
    out = {}
    for k, v in a.items():
        for f in v.objs:
            o = R.st.heap[f]
            if o.kind != 'inst' or o.cls is None:
                continue
            if R.st.heap[o.cls].extra.name == 'Dataset':
                out[k] = []
                for i, x in enumerate(frames_of(R, v)):
                    rename(R, x, LAST % (i, i))
                    out[k].append(LAST % (i, i))
            elif 'ext_hdr' in o.attrs:
                nm = 'CGI_%s_CAL.fits' % k
                rename(R, f, nm)
                out[k] = [nm]
    return out


def recorded(R, o, n=14):
    h = o.attrs['ext_hdr']
    return card(R, h, 'DRPNFILE'), [card(R, h, 'FILE%d' % i) for i in range(n)]


# how often used: parameters that decide which inputs go into which product
CONFIG = {'boresight_calibration': [({'frames_to_combine': None}, 2, None)],
          'combine_subexposures': [({'num_frames_per_group': const(2)}, 4, [[0, 1], [2, 3]]),
                                   ({'num_frames_per_group': const(3)}, 6, [[0, 1, 2], [3, 4, 5]]),
                                   ({'num_frames_per_group': NONE}, 3, [[0, 1, 2]])],
          'get_pc_mean': [({'bin_size': None}, 2, None), ({'bin_size': None}, 3, None)]}
COMBINERS = ('corgidrp.combine.combine_subexposures', 'corgidrp.photon_counting.get_pc_mean')
# made from calibration products alone, whose own record they carry on (documented for synthesized darks)
FROM_PRODUCTS = {'build_synthesized_dark': (), 'create_bad_pixel_map': ('master_dark', 'master_flat')}


def task(ctx, it):
    kind, name = it[:2]
    if kind == 'new':
        R = Run(ctx.I)
        names, parents = it[2]
        with R.quiet():
            ds = R.dataset(named_frames(R, names, parents))
        if it[3]:
            kw = ctor_args(R, ctx, name, dataset=ds, keys={'DRPNFILE': 1, 'FILE0': 'CGI_stale_L2a.fits'})
        else:
            kw = ctor_args(R, ctx, name, dataset=ds, absent=('DRPNFILE',))
        out = R.call('corgidrp.data.' + name, [], kw)
        return [recorded(R, o) for o in products(R, out)]
    res = []
    base = name.split('.')[-1]
    for over, nf, groups in CONFIG.get(base, [({}, 2, None)]):
        for ch in args.choices(ctx.repo, find(ctx, name)):
            names = {}

            def before(R, a):
                names.update(name_inputs(R, a))
            R, out = run_root(ctx, name, choose=ch, before=before, over=over, nframes=nf)
            prods = products(R, out)
            if prods and 'frames' in prods[0].attrs:
                prods = [R.st.heap[f] for f in frames_of(R, out)]
            res.append((names, {k: v for k, v in ch.items() if isinstance(v, str)}, groups,
                        [recorded(R, o) for o in prods if 'ext_hdr' in o.attrs]))
    return res


def check(ctx):
    items = []
    for c in data_classes(ctx):
        node = ctor(ctx, c)
        if c == 'Image' or node is None or 'input_dataset' not in [a.arg for a in node.args.args]:
            continue
        for case in CASES:
            items.append(('new', c, case, False))
            items.append(('new', c, case, True))
    fns = [f for f in entry_points(ctx, ('creators',), extra_steps=False)] + list(COMBINERS)
    items += [('made', f) for f in fns]
    for it, r in results(ctx, items, ctx.pmap(task, items)):
        kind, name = it[:2]
        if kind == 'new':
            names, parents = it[2]
            # a dark made from headers that carry a record already keeps it: documented for synthesized darks
            if it[3] and name in ('Dark', 'DetectorNoiseMaps'):
                continue
            want = list(dict.fromkeys(names + [p for ps in parents.values() for p in ps]))
            where = ctx.repo.loc(ctor(ctx, name))
            if not r:
                raise CheckError('no way to make a new %s was found' % name)
            for n, files in r:
                ctx.count('records')
                judge(ctx, name, 'a new %s' % name, where, want, n, files, True)
            continue
        base = name.split('.')[-1]
        where = ctx.repo.loc(find(ctx, name))
        for names, ch, groups, recs in r:
            if not any(isinstance(v, list) for v in names.values()):
                continue
            for i, (n, files) in enumerate(recs):
                if base in FROM_PRODUCTS:
                    must = [x for k in FROM_PRODUCTS[base] for x in names.get(k, [])]
                    if not must:
                        continue
                    ctx.count('records')
                    if ch.get('master_dark') == 'DetectorNoiseMaps':
                        # and the dark synthesized from the noise maps
                        got = {x for f in files if f for x in f}
                        for x in must:
                            if None not in files[:3] and x not in got:
                                ctx.add('%s|files' % short(name), '%s does not record %s' % (short(name), x), where)
                    else:
                        judge(ctx, short(name), short(name), where, must, n, files, True)
                    continue
                ds = [v for k, v in names.items() if len(v) > 1]
                if not ds:
                    continue
                want = ds[0]
                if groups is not None:
                    if len(recs) != len(groups):
                        continue
                    want = [ds[0][j] for j in groups[i]]
                ctx.count('records')
                judge(ctx, short(name), short(name), where, want, n, files, False)
    ctx.need('records', 150)
    ctx.explain.append('Each calibration class is interpreted as made from several sets of named files (with parents of their own, repeated, or overlapping), each builder and combining step on named frames; the DRPNFILE and FILE cards of the result must list exactly those files.')


def judge(ctx, key, what, where, want, n, files, strict):
    """The record must be exactly `want`: count, contiguous numbering, nothing twice."""
    if os.environ.get('VERIF_DEBUG'):
        print(key, n, [sorted(f) if f else f for f in files[:4]])
    if n is None:
        ctx.count('records_of_unknown_length')
        return
    if len(want) not in n or strict and n != {len(want)}:
        ctx.add('%s|count' % key, '%s made from %d files records %s of them' % (what, len(want), show(n)), where)
        return
    got = [f for f in files[:len(want)]]
    if any(f is None for f in got):
        ctx.count('records_with_unknown_names')
        return
    ctx.count('records_exact')
    flat = [next(iter(f)) if len(f) == 1 else f for f in got]
    if set(map(str, flat)) != set(map(str, want)):
        ctx.add('%s|files' % key, '%s made from %s records the files %s' % (what, want, [show(f) for f in got]), where)
