"""One rule for the EM gain of a frame: the measured gain, else the applied gain if positive, else the commanded gain."""
from .common import *
from .c02 import frames_of
from .c04 import plane
from .c06 import inputs_of
from .c10 import settings
from sa.tables import Tables

CARDS = ('EMGAIN_M', 'EMGAIN_A', 'EMGAIN_C')
# (cards, the one that is the gain); None: the card is not there
CASES = [((7., 3., 2.), 'EMGAIN_M'), ((7., 0., 2.), 'EMGAIN_M'), ((7., None, 2.), 'EMGAIN_M'), ((7., 3., 9.), 'EMGAIN_M'),
         ((.5, 3., 2.), 'EMGAIN_M'), ((None, 3., 2.), 'EMGAIN_A'), ((None, .5, 2.), 'EMGAIN_A'), ((None, 1., 2.), 'EMGAIN_A'),
         ((None, 3., 9.), 'EMGAIN_A'), ((None, 0., 2.), 'EMGAIN_C'), ((None, -1., 2.), 'EMGAIN_C')]
# the same gain from each source has to give the same result
SAME = [[(7., 3., 2.), (7., .5, 1.), (7., None, 1.), (None, 7., 2.), (None, 7., 1.), (None, 0., 7.), (None, -1., 7.)],
        [(1., 3., 2.), (1., .5, 7.), (None, 1., 7.), (None, 0., 1.)]]
VIS = {'VISTYPE': 'NONE'}
EXT = {'EXPTIME': 5., 'KGAINPAR': 8.7, 'RN': 100.}


FUNCS = {
    'l1_to_l2a.detect_cosmic_rays': {}, 'l1_to_l2a.correct_nonlinearity': {}, 'l2a_to_l2b.dark_subtraction': {},
    'l2a_to_l2b.em_gain_division': {'same': True}, 'l2a_to_l2b.add_photon_noise': {'same': True, 'tags': False},
    'photon_counting.get_pc_mean': {'pri': {'VISTYPE': 'DARK'}},
    'bad_pixel_calibration.create_bad_pixel_map': {},
    'darks.build_synthesized_dark': {},
    # a fit over sets of frames: the sets differ in exposure time and gain
    'darks.calibrate_darks_lsq': {'n': 4, 'step': .5, 'ext': lambda i: {'EXPTIME': i + 1.}},
    'calibrate_nonlin.nonlin_dataset_2_stack': {
        'n': 4, 'ext': lambda i: {'EXPTIME': 5. if i < 2 else i + 1., 'DATETIME': '2024-01-0%dT00:00:00' % (i + 1)},
        'pri': lambda i: {'OBSNAME': 'MNFRAME' if i < 2 else 'NONLIN'}, 'unity': 2},
}


def put(R, f, h, cards, tag=None):
    for q in R.st.heap[f].attrs[h].objs:
        ho = R.st.heap[q]
        it = dict(ho.items)
        for k, v in cards.items():
            it[k] = (NOTHING, 'n') if v is None else (const(v).with_tags(frozenset((tag % k,)) if tag else frozenset()), 'y')
        R.st.heap[q] = ho.repl(items=it)


def gains(R, out):
    """Gain cards whose values are in the arrays of a result."""
    res = set()
    for oid in R.I.reach(R.st, [('r', out)]):
        o = R.st.heap.get(oid)
        if o.kind == 'array' and not any(R.st.heap[x].kind == 'inst' for i in o.items or () for x in i.objs):
            t, _ = R.I.deep(R.st, obj(oid))
            res |= {x.split('.')[1] for x in t if str(x).startswith('GAIN.')}
    return res


def run(ctx, full, spec, ch, g):
    get = lambda d, i: (d(i) if callable(d) else d) or {}

    def before(R, a):
        settings(R, track_individual_errors=True)
        R.I.tables = Tables(R.I)
        for v in a.values():
            for i, f in enumerate(inputs_of(R, v)):
                mine = [x if x is None or x <= 0 else x + i * spec.get('step', 0) for x in g]
                if i < spec.get('unity', 0):
                    put(R, f, 'ext_hdr', dict(zip(CARDS, (None, 1., 1.))))
                else:
                    put(R, f, 'ext_hdr', dict(zip(CARDS, mine)), 'GAIN.%s')
                put(R, f, 'ext_hdr', dict(EXT, **get(spec.get('ext'), i)))
                put(R, f, 'pri_hdr', dict(VIS, **get(spec.get('pri'), i)))
    try:
        return run_root(ctx, full, before=before, choose=ch, nframes=spec.get('n', 2))
    finally:
        ctx.I.tables = None


def task(ctx, it):
    name, spec = it, FUNCS[it]
    full = 'corgidrp.' + name
    node = find(ctx, full)
    rows, same = [], []
    for ch in args.choices(ctx.repo, node):
        opt = {k: v if isinstance(v, str) else str(v) for k, v in ch.items()}
        if spec.get('tags', True):
            for g, want in CASES:
                R, out = run(ctx, full, spec, ch, g)
                rows.append((opt, g, want, None if out is None else sorted(gains(R, out))))
        if spec.get('same'):
            def look(g):
                R, out = run(ctx, full, spec, ch, g)
                return None if out is None else [[plane(R, R.st.heap[f].attrs[x]) for x in ('data', 'err', 'dq')]
                                                 for f in frames_of(R, out)]
            kinds = []
            for gs in SAME:
                ref = look(gs[0])
                kinds.append(str(ref))
                for g in gs[:1] + gs[1:]:
                    same.append((opt, gs[0], g, ref is not None and any(p is not None for f in ref for p in f), ref == look(g)))
            same.append((opt, 'gain', None, True, kinds[0] != kinds[1]))
    return rows, same


def check(ctx):
    items = list(FUNCS)
    for name, (rows, same) in results(ctx, items, ctx.pmap(task, items)):
        where = ctx.repo.loc(find(ctx, 'corgidrp.' + name))
        ctx.count('functions that use the EM gain')
        used = False
        for opt, g, want, got in rows:
            if got is None:
                continue
            said = ', '.join('%s %s' % (k, 'absent' if v is None else v) for k, v in zip(CARDS, g))
            used |= bool(got)
            ctx.count('header combinations')
            if set(got) - {want}:
                ctx.add('%s:%s' % (name, want), '%s: with %s the result depends on %s, not on %s alone (%s)' % (
                    name, said, ' and '.join(got), want, opt), where)
        works = {str(opt) for opt, g, want, got in rows if got is not None}
        for opt, g, want, got in rows:
            # a function may refuse a gain below 1
            if got is None and str(opt) in works and g[CARDS.index(want)] >= 1:
                ctx.add('%s:%s:raises' % (name, want), '%s: cannot work with gain cards (measured, applied, commanded) %s, where %s '
                        'is the gain (%s)' % (name, g, want, opt), where)
        groups = {}
        for opt, g, want, got in rows:
            if got is not None:
                groups.setdefault(str(opt), []).append((g, want, got))
        for opt, rs in groups.items():
            if any(got for _, _, got in rs):
                for g, want, got in rs:
                    if not got:
                        ctx.add('%s:%s:unused' % (name, want), '%s: with gains %s the result does not depend on %s (%s)' % (
                            name, g, want, opt), where)
        if rows and not used:
            ctx.add(name + ':unused', '%s does not use the EM gain of the frames' % name, where)
        for opt, a, b, known, eq in same:
            if a == 'gain':
                if not eq:
                    ctx.add(name + ':unused', '%s gives the same result for an EM gain of 1 and of 7 (%s)' % (name, opt), where)
                continue
            if not known:
                ctx.skipped.append('%s: arithmetic not followed (%s)' % (name, opt))
                continue
            ctx.count('equal gains compared')
            if not eq and a != b:
                ctx.add('%s:same' % name, '%s: gain cards (measured, applied, commanded) %s and %s stand for the same gain but '
                        'give different results (%s)' % (name, a, b, opt), where)
    ctx.need('functions that use the EM gain', len(FUNCS))
    ctx.need('header combinations', 60)
    ctx.need('equal gains compared', 15)
