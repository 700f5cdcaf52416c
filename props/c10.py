"""Every recipe the pipeline ships can be filled in and run, and the one chosen for a dataset fits it."""
import glob
from .common import *
from .c08 import virtual_file
from sa.core import *

LEVELS = ('L1', 'L2a', 'L2b', 'L3')
FRAMES = (2, 6)
# what the data of a visit are for: level -> visit type -> the steps one of the chosen recipes must contain
PURPOSE = {
    'L1': {'BORESITE': ['boresight_calibration'], 'FFIELD': ['create_onsky_flatfield'],
           'PUPILIMG': ['calibrate_kgain', 'calibrate_nonlin'], '<other>': ['update_to_l2a'], '<none>': ['update_to_l2b']},
    'L2a': {'<other>': ['update_to_l2b']},
    'L2b': {'ABSFLXFT': ['calibrate_fluxcal_aper'], 'ABSFLXBT': ['calibrate_fluxcal_aper'], 'CORETPUT': ['generate_ct_cal'],
            '<other>': ['update_to_l3']},
    'L3': {'<other>': ['update_to_l4']},
}


def templates(ctx):
    d = os.path.join(ctx.repo.root, 'corgidrp', 'recipe_templates')
    return sorted(os.path.basename(p) for p in glob.glob(d + '/*.json')), d


def settings(R, **kw):
    """Give the package settings known values."""
    st = R.st
    m = R.I.mods['corgidrp']
    o = st.heap[m]
    st.heap[m] = o.repl(attrs=dict(o.attrs, **{k: const(v) for k, v in kw.items()}))


class Steps:
    """Records which registered steps are entered and left, and with which kinds of arguments."""

    def __init__(self, reg):
        self.reg = {f: n for n, f in reg.items()}
        self.calls, self.left = [], []

    def on_call(self, I, st, full, args, kw, node):
        if full in self.reg and getattr(node, '_mod', '') == 'corgidrp.walker':
            def kinds(a):
                return sorted({st.heap[st.heap[x].cls].extra.name if st.heap[x].cls is not None else st.heap[x].kind
                               for x in a.objs})
            self.calls.append((full, [kinds(a) for a in args], sorted(kw)))

    def on_return(self, I, st, full, act, node):
        if full in self.reg and getattr(node, '_mod', '') == 'corgidrp.walker' and act.rets:
            self.left.append(full)


def run_template(ctx, path, level, nf, missing=()):
    S = Steps(registry(ctx))    # (starts a run of its own)
    R = Run(ctx.I)
    I = R.I
    settings(R, jit_calib_id=False, skip_missing_cal_steps=False)
    files = ['CGI_%04d_L1_.fits' % i for i in range(nf)]
    with R.quiet():
        ds = R.dataset([R.image('f%d' % i, ext={'DATALVL': level, 'DATATYPE': 'Image'}) for i in range(nf)]) if nf else None
        for c in data_classes(ctx):
            if c != 'Image':
                virtual_file(R, c, c, path='/cal/%s.fits' % c)
        fl = I.models.lift(R.st, FakeNode(), files)
        template = I.models.lift(R.st, FakeNode(), json.load(open(path)))
    names = set(files)

    def inputs(I, st, args, kw, node):
        if args and getattr(node, '_mod', '') == 'corgidrp.walker':
            o = I.one(st, args[0], 'list')
            if o is not None and o.items is not None and o.items and \
                    all(i.single() and i.single()[0] in names for i in o.items):
                return ds
        return None
    asked = []

    def get_calib(I, st, args, kw, node):
        dt = kw.get('dtype') or args[2 if len(args) > 2 else -1]
        out = NOTHING
        for x in dt.objs:
            o = st.heap[x]
            if o.kind == 'class':
                asked.append(o.extra.name)
                if o.extra.name in missing:
                    I.die(st, ('ValueError', 'Exception', 'BaseException', 'object'), node)
                out = jav(out, I.new(st, node, 'opaque', k=('cal', o.extra.name), extra='calfile:' + o.extra.name))
        return out if not out.empty else None
    I.hooks['corgidrp.data.Dataset'] = inputs
    I.hooks['corgidrp.caldb.CalDB.__init__'] = lambda I, st, args, kw, node: NONE
    I.hooks['corgidrp.caldb.CalDB.create_entry'] = lambda I, st, args, kw, node: NONE
    I.hooks['corgidrp.caldb.CalDB.get_calib'] = get_calib
    I.opaque_attr = lambda o, name: const('/cal/%s.fits' % o.extra[8:]) if isinstance(o.extra, str) and \
        o.extra.startswith('calfile:') and name == 'filepath' else None
    I.listeners.append(S)
    stage = 'filled in'
    out = R.call('corgidrp.walker.autogen_recipe', [fl, const('/out')], {'template': template})
    if out is not None:
        stage = 'run'
        out = R.call('corgidrp.walker.run_recipe', [out])
    I.opaque_attr = None
    wrong = sorted({(S.reg[e.detail[0]], e.detail[1]) for e in (I.bad_calls or {}).values() if e.detail[0] in S.reg})
    stop = None
    if out is None and stage == 'run':
        done = [S.reg[f] for f in S.left]
        cur = [S.reg[c[0]] for c in S.calls]
        stop = cur[-1] if cur and (not done or done[-1] != cur[-1]) else 'after ' + (cur[-1] if cur else 'the start')
    return {'ok': out is not None, 'stage': stage, 'stop': stop, 'asked': sorted(set(asked)), 'wrong': wrong,
            'calls': [(S.reg[c[0]],) + c for c in S.calls]}


def guess(ctx, level, vis, pc, los, many):
    R = Run(ctx.I)
    ext = {'DATALVL': level, 'DATATYPE': 'Image', 'ISPC': pc, 'FSMLOS': los}
    with R.quiet():
        fr, vals = [], []
        for i in range(2):
            e = dict(ext, EXPTIME=10.0, EMGAIN_C=1.0, KGAINPAR=1.0)
            if many and i:
                e[many] = 20.0
            vals.append(e)
            fr.append(R.image('f%d' % i, pri={} if vis is None else {'VISTYPE': vis}, ext=e,
                              absent_pri=('VISTYPE',) if vis is None else ()))
        ds = R.dataset(fr)

    def split(I, st, args, kw, node):
        # what split_dataset documents: one group for each combination of values
        a = dict(zip(('prihdr_keywords', 'exthdr_keywords'), args[1:]), **kw)
        o = I.one(st, a.get('exthdr_keywords', NONE), 'list')
        names = [x.single() for x in o.items] if o is not None and o.items is not None else [None]
        if 'prihdr_keywords' in a and a['prihdr_keywords'].concrete() != [None] or None in names:
            return None
        combos = sorted({tuple(v.get(k[0]) for k in names) for v in vals})
        return I.models.lift(st, FakeNode(), ([0] * len(combos), combos))
    R.I.hooks['corgidrp.data.Dataset.split_dataset'] = split
    out = R.call('corgidrp.walker.guess_template', [ds])
    if out is None:
        return None
    res = [[str(x)] for x in (out.concrete() or ())]
    for x in out.objs:
        res.append([str(y) for it in (R.st.heap[x].items or ()) for y in sorted(it.concrete() or (), key=str)])
    return res


def task(ctx, it):
    if it[0] == 'run':
        tried = []
        for nf in FRAMES:
            for lv in it[2]:
                r = run_template(ctx, it[1], lv, nf, it[3])
                if r['ok']:
                    return dict(r, level=lv, nf=nf)
                tried.append(dict(r, level=lv, nf=nf))
        return max(tried, key=lambda r: len(r['calls']))
    return guess(ctx, *it[1:])


def check(ctx):
    names, d = templates(ctx)
    fn = find(ctx, 'corgidrp.walker.guess_template')
    words = sorted({n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                    and re.fullmatch(r'[A-Z][A-Z0-9_]{3,}', n.value)} - {'VISTYPE', 'DATALVL', 'EXPTIME', 'EMGAIN_C', 'KGAINPAR',
                                                                       'ISPC', 'FSMLOS'})
    vis = words + sorted({v for t in PURPOSE.values() for v in t if v[0] != '<'}) + ['DARK', 'ENGPUPIL', 'ENGIMGAGE', 'CGIVST_TDD_OBS', None]
    vis = [v for i, v in enumerate(vis) if v not in vis[:i]]
    items = [('guess', lv, v, pc, los, many) for lv in LEVELS for v in vis for pc in (True, False)
             for los in ((0, 1) if lv == 'L3' else (0,)) for many in (('', 'EXPTIME', 'EMGAIN_C', 'KGAINPAR') if v == 'DARK' else ('',))]
    chosen = {}
    steps_of, optional = {}, {}
    for n in names:
        with open(os.path.join(d, n)) as f:
            try:
                rec = json.load(f)
                steps_of[n] = [s['name'] for s in rec['steps']]
                cal = [(c, 'OPTIONAL' in str(v).upper()) for s in rec['steps'] for c, v in s.get('calibs', {}).items()]
                optional[n] = tuple(sorted({c for c, o in cal if o} - {c for c, o in cal if not o}))
                if steps_of[n][-1:] != ['save']:
                    ctx.add('%s|save' % n, 'recipe %s does not save what it makes' % n, 'corgidrp/recipe_templates/' + n)
            except (ValueError, KeyError, TypeError) as e:
                ctx.add('%s|malformed' % n, 'recipe template %s is not a recipe (%s)' % (n, e), 'corgidrp/recipe_templates/' + n)
    where = ctx.repo.loc(fn)
    for it, r in results(ctx, items, ctx.pmap(task, items)):
        _, lv, v, pc, los, many = it
        what = '%s data of visit type %s%s' % (lv, v, ' (photon counting)' if pc else '')
        ctx.count('datasets_classified')
        if r is None:
            if v is not None or lv in ('L1', 'L3'):
                ctx.add('guess|%s|%s' % (lv, v), 'no recipe is chosen for %s' % what, where)
            continue
        if len(r) != 1 or not r[0]:
            raise CheckError('the recipe chosen for %s is not known (%s)' % (what, r))
        r = r[0]
        have = set()
        for n in r:
            if n not in steps_of:
                ctx.add('guess|missing|' + n, 'the recipe chosen for %s, %s, is not among the templates' % (what, n), where)
                continue
            chosen.setdefault(n, set()).add(lv)
            have |= set(steps_of[n])
        if v == 'DARK':
            if lv in ('L1', 'L2a'):
                want = 'get_pc_mean' if pc else 'calibrate_darks' if many else 'build_trad_dark'
                if want not in have:
                    ctx.add('purpose|%s|DARK|%s' % (lv, want), 'the recipe chosen for %s (%s) does not %s'
                            % (what, 'several values of ' + many if many else 'all taken alike', want), where)
            continue
        t = PURPOSE[lv]
        for want in t.get('<none>' if v is None and '<none>' in t else v, t['<other>']):
            if want not in have and any(n in steps_of for n in r):
                ctx.add('purpose|%s|%s|%s' % (lv, v, want), 'the recipe chosen for %s does not %s' % (what, want), where)
        if lv == 'L2a' and v is not None and ('get_pc_mean' in have) != pc:
            ctx.add('purpose|L2a|%s|pc' % v, 'the recipe chosen for %s %s photon counting' % (what, 'lacks' if pc else 'does'), where)
        if lv == 'L3' and ('do_psf_subtraction' in have) != (los == 1):
            ctx.add('purpose|L3|psfsub', 'the recipe chosen for L3 data %s PSF subtraction though the fast steering mirror loop is %s'
                    % ('lacks' if los == 1 else 'does', 'closed' if los else 'open'), where)
    items = []
    for n in names:
        if n in steps_of:
            for lv in sorted(chosen.get(n, ())) or [None]:
                lvs = [lv] if lv else list(LEVELS)
                items.append(('run', os.path.join(d, n), lvs, ()))
                if optional.get(n):
                    items.append(('run', os.path.join(d, n), lvs, optional[n]))
    labels = caldb_labels(ctx)
    for it, r in results(ctx, items, ctx.pmap(task, items)):
        n = os.path.basename(it[1])
        where = 'corgidrp/recipe_templates/' + n
        lv = it[2][0] if len(it[2]) == 1 else 'any'
        without = ' without the optional %s' % ', '.join(it[3]) if it[3] else ''
        ctx.count('recipes_run')
        if not r['ok']:
            if r['stage'] == 'run':
                ctx.add('%s|stops' % n, 'recipe %s cannot be run on %s data%s: no path gets through %s'
                        % (n, lv, without, r['stop']), where)
            else:
                ctx.add('%s|fill' % n, 'recipe %s cannot be filled in%s' % (n, without), where)
        for name, what in r['wrong']:
            ctx.add('%s|%s|call' % (n, name), 'recipe %s does not call step %s as it is defined: %s' % (n, name, what), where)
        for name, full, a, kws in r['calls']:
            ctx.count('steps_run')
            ps = args.params(ctx.repo, find(ctx, full))
            for i, kinds in enumerate(a):
                if i == 0 or i >= len(ps) or not ps[i].classes:
                    continue
                for k in kinds:
                    ctx.count('calibrations_placed')
                    if k not in ps[i].classes:
                        ctx.add('%s|%s|%s' % (n, name, ps[i].name), 'recipe %s gives step %s a %s as its %s (%s)'
                                % (n, name, k, ps[i].name, ' or '.join(ps[i].classes)), where)
        for c in r['asked']:
            ctx.count('calibrations_asked_for')
            if c not in labels:
                ctx.add('%s|%s' % (n, c), 'recipe %s needs a %s, which the calibration database cannot hold' % (n, c), where)
    ctx.need('recipes_run', 20)
    ctx.need('steps_run', 150)
    ctx.need('datasets_classified', 60)
    ctx.explain.append('The walker\'s own autogen_recipe and run_recipe are interpreted on each template read from the package, with abstract '
                       'frames of the level it is chosen for and abstract calibration files; some path has to get through all steps.')


def caldb_labels(ctx):
    st = Run(ctx.I).st
    v = st.heap[ctx.I.mods['corgidrp.caldb']].attrs.get('labels')
    out = set()
    for x in v.objs:
        for k in (st.heap[x].items or {}):
            t = k[1] if isinstance(k, tuple) else k
            o = st.heap.get(getattr(t, 'v', t)) if not isinstance(t, str) else None
            if o is not None and o.kind == 'class':
                out.add(o.extra.name)
            else:
                out.add(str(t))
    return out
