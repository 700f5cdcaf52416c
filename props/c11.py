"""The walker carries out a recipe exactly as it is written."""
import copy
import glob
from .common import *
from .c10 import settings, templates
from sa.core import *

VALUE_ERROR = ('ValueError', 'Exception', 'BaseException', 'object')
UNKNOWN = '?'
FILES = ['/in/CGI_a_L1_.fits', '/in/CGI_b_L1_.fits']
OUT = '/out'


def plain(st, v, depth=0):
    """The Python value an abstract value stands for; unknown parts are UNKNOWN."""
    if depth > 12 or v is None:
        return UNKNOWN
    s = v.single()
    if s is not None:
        return s[0]
    if v.any or v.unb or len(v.objs) != 1 or v.consts:
        return UNKNOWN
    o = st.heap[next(iter(v.objs))]
    if o.kind in ('list', 'tuple') and o.items is not None:
        return [plain(st, x, depth + 1) for x in o.items]
    if o.kind == 'dict' and o.elem is None:
        out = {}
        for k, (x, m) in (o.items or {}).items():
            if m == 'n':
                continue
            out[k[1] if isinstance(k, tuple) else k] = plain(st, x, depth + 1) if m == 'y' else UNKNOWN
        return out
    if o.kind == 'opaque' and isinstance(o.extra, str):
        return '<%s>' % o.extra
    return UNKNOWN


class World:
    """Stand-ins for everything the walker works with; records what it does with them, in order."""

    def __init__(self, ctx, missing=(), final=None, nsteps=0, pair=False):
        reg = registry(ctx)
        self.ctx = ctx
        R = self.R = Run(ctx.I)
        I, st = R.I, R.st
        self.st = st
        self.events = []
        self.missing = set(missing)
        self.snaps = []
        self.final, self.pair = final, pair
        self.headers = []
        self.nsteps = nsteps
        self.done = 0
        with R.quiet():
            self.inputs = self.make('in', FILES)
            self.made = [self.make('s%d' % i, ['s%d_0.fits' % i, 's%d_1.FITS' % i]) for i in range(nsteps)]
            if final is not None:
                self.made[-1] = self.product(final, 'out.fits') if not pair else \
                    R.dataset([self.product(final, 'out.fits'), self.product(final, 'out2.fits')])
        I.hooks['corgidrp.data.Dataset'] = self.dataset
        I.hooks['corgidrp.data.Dataset.save'] = self.save
        I.hooks['corgidrp.data.Image.save'] = self.save
        for c in data_classes(ctx):
            I.hooks['corgidrp.data.' + c] = self.loader(c)
        I.hooks['corgidrp.caldb.CalDB.__init__'] = lambda I, st, args, kw, node: NONE
        I.hooks['corgidrp.caldb.CalDB.create_entry'] = self.entry
        I.hooks['corgidrp.caldb.CalDB.get_calib'] = self.get_calib
        for n, f in reg.items():
            if f:
                I.hooks[f] = self.step(f)
        self.reg = reg
        for m in ('json.dumps', 'json.dump'):
            I.ext_hooks[m] = self.dumps
        I.opaque_attr = lambda o, name: const(o.extra[4:]) if isinstance(o.extra, str) and \
            o.extra.startswith('cal:') and name == 'filepath' else None

    def make(self, tag, names):
        R = self.R
        fr = []
        for i, n in enumerate(names):
            f = R.image('%s%d' % (tag, i))
            self.name(f, n)
            fr.append(f)
        return R.dataset(fr)

    def name(self, f, n):
        st = self.R.st
        for x in f.objs:
            o = st.heap[x]
            d, _, b = n.rpartition('/')
            st.heap[x] = o.repl(attrs=dict(o.attrs, filename=const(b), filedir=const(d)))

    def product(self, cls, n):
        R = self.R
        im = R.image('prod')
        for x in im.objs:
            R.st.heap[x] = R.st.heap[x].repl(cls=next(iter(R.cls(cls).objs)))
        self.name(im, n)
        return im

    def who(self, v):
        """Which of the things made so far a value is."""
        names = {'in': self.inputs}
        for i, m in enumerate(self.made):
            names[i] = m
        for k, m in names.items():
            if v is not None and v.objs == m.objs and not v.consts and not v.any:
                return k
        # a dataset around one of them
        I, st = self.R.I, self.st
        o = I.one(st, v, 'inst') if v is not None else None
        fr = o.attrs.get('frames') if o is not None else None
        fo = self.seq(fr)
        if fo is not None and fo.items is not None and len(fo.items) == 1:
            w = self.who(fo.items[0])
            if w != UNKNOWN:
                return w
        return UNKNOWN

    def seq(self, v):
        o = self.R.I.one(self.st, v) if v is not None else None
        return o if o is not None and o.kind in ('list', 'tuple', 'array') else None

    # stand-ins
    def dataset(self, I, st, args, kw, node):
        self.st = st
        v = plain(st, args[0]) if args else UNKNOWN
        if v == FILES:
            self.events.append(('read',))
            return self.inputs
        if isinstance(v, list) and v and all(isinstance(x, str) and x != UNKNOWN for x in v):
            self.events.append(('read', v))
            return self.inputs
        return None

    def save(self, I, st, args, kw, node):
        self.st = st
        a = dict(zip(('self', 'filedir', 'filenames', 'filename'), args))
        a.update(kw)
        names = a.get('filenames', a.get('filename', NONE))
        self.events.append(('save', self.who(args[0]), plain(st, a.get('filedir', NONE)), plain(st, names)))
        return NONE

    def loader(self, cls):
        def load(I, st, args, kw, node):
            p = plain(st, args[0]) if len(args) == 1 and not kw else None
            if isinstance(p, str) and p[:1] == '/':
                return I.new(st, node, 'opaque', k=('ld', cls, str(plain(st, args[0]))),
                             extra='%s(%s)' % (cls, plain(st, args[0])))
            return None
        return load

    def entry(self, I, st, args, kw, node):
        self.st = st
        a = dict(zip(('self', 'entry', 'to_disk'), args))
        a.update(kw)
        e = self.who(a.get('entry'))
        if e == UNKNOWN:
            for k, m in [('in', self.inputs)] + list(enumerate(self.made)):
                o = I.one(st, m, 'inst')
                fr = self.seq(o.attrs.get('frames')) if o is not None else None
                if fr is not None and fr.items is not None and any(x.objs == a['entry'].objs for x in fr.items):
                    e = k
        self.events.append(('register', e))
        return NONE

    def get_calib(self, I, st, args, kw, node):
        self.st = st
        a = dict(zip(('self', 'frame', 'dtype', 'to_disk'), args))
        a.update(kw)
        k = self.cls_of(st, a.get('dtype'))
        self.events.append(('look up', k, self.frame(a.get('frame'))))
        if k in self.missing:
            I.die(st, VALUE_ERROR, node)
        return I.new(st, node, 'opaque', k=('cal', k), extra='cal:/db/%s.fits' % k)

    def cls_of(self, st, v):
        o = st.heap[next(iter(v.objs))] if v is not None and len(v.objs) == 1 else None
        return o.extra.name if o is not None and o.kind == 'class' else UNKNOWN

    def frame(self, v):
        if v is None:
            return UNKNOWN
        if v.single() == (None,):
            return None
        I, st = self.R.I, self.st
        for k, m in [('in', self.inputs)] + list(enumerate(self.made)):
            if v.objs == m.objs:
                return (k, 0)
            o = I.one(st, m, 'inst')
            fr = o.attrs.get('frames') if o is not None else None
            fo = self.seq(fr)
            for i, f in enumerate(fo.items or () if fo is not None else ()):
                if v.objs == f.objs:
                    return (k, i)
        return UNKNOWN

    def step(self, full):
        def run(I, st, args, kw, node):
            self.st = st
            vals = []
            for x in args[1:]:
                vals.append(UNKNOWN if isinstance(x, tuple) else plain(st, x))
            kws = {k: plain(st, v) for k, v in kw.items()}
            src = self.who(args[0]) if args and not isinstance(args[0], tuple) else UNKNOWN
            self.events.append(('step', full, src, vals, kws))
            self.headers.append((full, vals, self.cards(args[0], 'RECIPE') if src != UNKNOWN else []))
            if self.done >= len(self.made):
                return self.made[-1] if self.made else self.inputs
            r = self.made[self.done]
            self.done += 1
            return r
        return run

    def dumps(self, I, st, node, args, kw):
        v = plain(st, args[0]) if args else UNKNOWN
        if len(args) > 1:
            return NONE
        self.snaps.append(v)
        return const('RECIPE#%d' % (len(self.snaps) - 1))

    # reading results
    def cards(self, ds, key):
        """The values of a card in the frames of a dataset."""
        I, st = self.R.I, self.st
        st = self.st
        out = []
        o = I.one(st, ds, 'inst')
        fr = o.attrs.get('frames') if o is not None else None
        fo = self.seq(fr)
        for f in (fo.items if fo is not None else (ds,)):
            fi = I.one(st, f, 'inst')
            h = I.one(st, fi.attrs.get('ext_hdr'), 'header')
            e = (h.items or {}).get(key)
            out.append(plain(st, e[0]) if e is not None and e[1] == 'y' else None)
        return out

    def lift(self, v):
        with self.R.quiet():
            return self.R.I.models.lift(self.R.st, FakeNode(), v)


def suffixed(names, suffix):
    if not suffix:
        return None
    return [n[:n.lower().rfind('.fits')] + '_' + suffix.strip('_') + '.fits' for n in names]


def expected(ctx, W, rec, final, labels, jit, missing, skip_missing):
    """The events a recipe calls for; None as last event: it has to fail there."""
    reg = W.reg
    ev = [('read',)]
    cur, k = 'in', 0
    n = W.nsteps
    for s in rec['steps']:
        if s['name'].lower() == 'save':
            suf = s.get('keywords', {}).get('suffix', '')
            names = ['CGI_a_L1_.fits', 'CGI_b_L1_.fits'] if cur == 'in' else \
                ['out.fits', 'out2.fits'][:1 + bool(W.pair)] if final and cur == n - 1 else \
                ['s%d_0.fits' % cur, 's%d_1.FITS' % cur]
            ev.append(('save', cur, rec['outputdir'], suffixed(names, suf)))
            if final in labels and cur == n - 1:
                ev += [('register', cur)] * (1 + bool(W.pair))
            continue
        if s.get('skip'):
            continue
        cal, skip = [], False
        for c, p in s.get('calibs', {}).items():
            if jit and isinstance(p, str) and 'AUTOMATIC' in p.upper():
                ev.append(('look up', c, (cur, 0)))
                if c in missing:
                    if 'OPTIONAL' in p.upper():
                        p = None
                    elif skip_missing:
                        skip = True
                        p = None
                    else:
                        return ev + [None], k
                else:
                    p = '/db/%s.fits' % c
            cal.append(None if p is None else '<%s(%s)>' % (c, p))
        if skip:
            continue
        ev.append(('step', reg[s['name']], cur, cal, s.get('keywords', {})))
        cur = k
        k += 1
    return ev, k


def diff(got, want):
    """First difference between two lists of events, in words, or None."""
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g != w:
            return g, w
    return None


def words(e):
    if e is None:
        return 'nothing more is done'
    if e[0] == 'step':
        return 'step %s gets %s, calibrations %s, keywords %s' % (short(e[1]), e[2] if e[2] in ('in', UNKNOWN) else
                                                                  'the result of step %d' % e[2], e[3], e[4])
    return ' '.join(str(x) for x in e)


def recipes(ctx):
    """The shipped templates, and recipes made to bring out what they do not exercise."""
    names, d = templates(ctx)
    out = []
    for n in names:
        try:
            with open(os.path.join(d, n)) as f:
                out.append((n, json.load(f)))
        except ValueError:
            continue
    reg = [n for n, f in registry(ctx).items() if f]
    a, b, c = (reg * 3)[:3]
    made = {'name': 'made', 'template': True, 'drpconfig': {'track_individual_errors': False}, 'inputs': [], 'outputdir': '',
            'steps': [
                {'name': a, 'calibs': {'KGain': 'AUTOMATIC', 'Dark': '/my/dark.fits', 'FlatField': 'automatic, optional'},
                 'keywords': {'x': 1, 'y': [2, 3]}},
                {'name': 'save'}, {'name': b}, {'name': 'save', 'keywords': {'suffix': '_mid_'}},
                {'name': a, 'calibs': {'Dark': 'AUTOMATIC,OPTIONAL'}, 'keywords': {}},
                {'name': c, 'calibs': {'BadPixelMap': 'AUTOMATIC', 'KGain': '/my/kgain.fits'}, 'keywords': {'z': None}},
                {'name': b, 'calibs': {'KGain': 'AUTOMATIC'}, 'keywords': {'q': 'v'}},
                {'name': 'SAVE', 'keywords': {'suffix': 'end'}}]}
    out.append(('(made)', made))
    twice = copy.deepcopy(made)
    twice['steps'] = [{'name': 'save', 'keywords': {'suffix': 'raw'}}, {'name': c, 'keywords': {'k': 0}}, {'name': c}, {'name': 'save'}]
    out.append(('(repeated)', twice))
    if 'dark_subtraction' in reg:
        darks = copy.deepcopy(made)
        darks['steps'] = [{'name': 'dark_subtraction', 'calibs': {'Dark': 'AUTOMATIC'}, 'keywords': {'outputdir': 'automatic'}},
                          {'name': 'save'},
                          {'name': 'dark_subtraction', 'calibs': {'Dark': 'AUTOMATIC'}, 'keywords': {'outputdir': '/my/darks'}},
                          {'name': c, 'keywords': {'outputdir': 'AUTOMATIC'}}, {'name': 'save'}]
        out.append(('(darks)', darks))
    return out


def classes_in(rec):
    return sorted({c for s in rec['steps'] for c in s.get('calibs', {})})


def task(ctx, it):
    return {'run': run_task, 'fill': fill_task, 'walk': walk_task}[it[0]](ctx, *it[1:])


def run_task(ctx, rec, mode):
    """run_recipe on one recipe; mode says what is special."""
    rec = copy.deepcopy(rec)
    rec['inputs'], rec['outputdir'], rec['template'] = list(FILES), OUT, False
    jit = mode.get('jit')
    missing = mode.get('missing', ())
    for j in mode.get('skip', ()):
        rec['steps'][j]['skip'] = True
    if not jit:
        for i, s in enumerate(rec['steps']):
            for c, v in s.get('calibs', {}).items():
                if 'AUTOMATIC' in v.upper():
                    s['calibs'][c] = None if mode.get('none') and 'OPTIONAL' in v.upper() else '/c%d/%s.fits' % (i, c)
    if 'recipe_jit' in mode:
        rec['drpconfig']['jit_calib_id'] = mode['recipe_jit']
    n = sum(s['name'].lower() != 'save' for s in rec['steps'])
    final = mode.get('final')
    labels = mode['labels']
    W = World(ctx, missing, None, 0)
    want, n = expected(ctx, W, rec, final, labels, jit, missing, mode.get('skip_missing'))
    W = World(ctx, missing, final if n else None, n, mode.get('pair'))
    want, _ = expected(ctx, W, rec, final if n else None, labels, jit, missing, mode.get('skip_missing'))
    settings(W.R, jit_calib_id=mode.get('global_jit', False), skip_missing_cal_steps=bool(mode.get('skip_missing')),
             track_individual_errors='unset')
    av = W.lift(rec)
    out = W.R.call('corgidrp.walker.run_recipe', [av], {'save_recipe_file': const(mode.get('save_file', True))})
    bad = []
    fails = want and want[-1] is None
    if fails:
        want = want[:-1]
    d = diff(W.events, want)
    if d is not None:
        bad.append(('order', 'where the recipe says: %s; the walker does: %s' % (words(d[1]), words(d[0]))))
    elif fails and out is not None:
        bad.append(('missing', 'a calibration that is neither optional nor skippable is missing and the run goes on'))
    elif not fails and out is None:
        bad.append(('stops', 'the run does not come to its end'))
    if bad or fails:
        return bad, len(want)
    # settings of the recipe
    o = W.R.st.heap[W.R.I.mods['corgidrp']]
    for k, v in rec['drpconfig'].items():
        if plain(W.R.st, o.attrs.get(k, NONE)) != v:
            bad.append(('drpconfig', 'setting %s of the recipe is not in force' % k))
    # the recipe in the headers
    rec['drpconfig'].pop('jit_calib_id', None)
    W.st = W.R.st
    if jit:
        for full, vals, cards in W.headers:
            if not vals:
                continue
            for c in cards:
                if not (isinstance(c, str) and c.startswith('RECIPE#') and used(W, full, W.snaps[int(c[7:])], vals)):
                    bad.append(('header-jit', 'the frames that enter step %s do not all carry the recipe with the calibrations it uses'
                                % short(full)))
                    break
    for i, c in enumerate(W.cards(W.inputs, 'RECIPE')):
        if not (isinstance(c, str) and c.startswith('RECIPE#')):
            bad.append(('header', 'input frame %d does not get the recipe in its RECIPE card (%s)' % (i, c)))
            continue
        s = copy.deepcopy(W.snaps[int(c[7:])])
        if not isinstance(s, dict) or s.get('inputs') != rec['inputs'] or \
                [t.get('name') for t in s.get('steps', ())] != [t['name'] for t in rec['steps']]:
            bad.append(('header', 'the RECIPE card of input frame %d is not this recipe' % i))
    return bad, len(want)


def used(W, full, rec, vals):
    if not isinstance(rec, dict):
        return False
    for s in rec.get('steps', ()):
        if W.reg.get(s.get('name')) == full and \
                [None if v is None else '<%s(%s)>' % (c, v) for c, v in s.get('calibs', {}).items()] == vals:
            return True
    return False


def fill_task(ctx, recs, mode):
    """autogen_recipe on templates (one given, or several chosen by guess_template)."""
    W = World(ctx, mode.get('missing', ()))
    R = W.R
    settings(R, jit_calib_id=mode.get('global_jit', False), skip_missing_cal_steps=bool(mode.get('skip_missing')))
    recs = copy.deepcopy(recs)
    if 'recipe_jit' in mode:
        for r in recs:
            r['drpconfig']['jit_calib_id'] = mode['recipe_jit']
    missing = mode.get('missing', ())
    skip_missing = mode.get('skip_missing')
    kw = {}
    avs = [W.lift(r) for r in recs]
    if mode.get('chosen'):
        names = ['t%d.json' % i for i in range(len(recs))]
        R.I.hooks['corgidrp.walker.guess_template'] = lambda I, st, args, kw, node: \
            I.models.lift(st, FakeNode(), names if len(names) > 1 else names[0])
        avs = []
        opened = []

        def opener(m, st, path, node):
            return None
        R.I.ext_hooks['json.load'] = lambda I, st, node, args, kw: loaded(I, st, args)

        def loaded(I, st, args):
            o = I.one(st, args[0], 'opaque') if args else None
            p = o.extra[2][0] if o is not None and isinstance(o.extra, tuple) and o.extra[0] == 'file' and len(o.extra[2]) == 1 else ''
            b = os.path.basename(p)
            opened.append(p)
            return I.models.lift(st, FakeNode(), recs[names.index(b)]) if b in names else None
    else:
        kw['template'] = avs[0]
    out = R.call('corgidrp.walker.autogen_recipe', [W.lift(FILES), const(OUT)], kw)
    bad = []
    fails = False
    wants = []
    for r in recs:
        w = copy.deepcopy(r)
        w['template'], w['inputs'], w['outputdir'] = False, list(FILES), OUT
        jit = w['drpconfig'].get('jit_calib_id', mode.get('global_jit', False))
        for s in w['steps']:
            if not jit:
                for c, v in s.get('calibs', {}).items():
                    if 'AUTOMATIC' in v.upper():
                        if c not in missing:
                            s['calibs'][c] = '/db/%s.fits' % c
                        elif 'OPTIONAL' in v.upper():
                            s['calibs'][c] = None
                        elif skip_missing:
                            s['calibs'][c] = None
                            s['skip'] = True
                        else:
                            fails = True
            if s['name'].lower() == 'dark_subtraction' and s.get('keywords', {}).get('outputdir', '').upper() == 'AUTOMATIC':
                s['keywords']['outputdir'] = OUT
        wants.append(w)
    if fails:
        if out is not None:
            bad.append(('missing', 'a recipe is made although a calibration it cannot do without is missing'))
        return bad, 1
    if out is None:
        return [('stops', 'no recipe is made')], 1
    got = plain(R.st, out)
    if len(recs) == 1:
        got = [got]
    if not isinstance(got, list) or len(got) != len(wants):
        return [('number', '%d recipes are asked for, and %s made' % (len(wants), len(got) if isinstance(got, list) else 'others'))], 1
    for g, w in zip(got, wants):
        if g != w:
            bad.append(('fill', 'the recipe made differs from its template filled in: ' + where_differs(g, w)))
    # what was looked up, for which frame
    for e in W.events:
        if e[0] == 'look up' and e[2] != ('in', 0):
            bad.append(('frame', 'calibrations are looked up for %s and not for the first input frame' % (e[2],)))
            break
    if avs and plain(R.st, avs[0]) != recs[0]:
        bad.append(('template', 'the template passed in is changed: ' + where_differs(plain(R.st, avs[0]), recs[0])))
    return bad, len(recs)


def where_differs(g, w, path=''):
    if isinstance(w, dict) and isinstance(g, dict):
        for k in sorted(set(g) | set(w), key=str):
            if g.get(k, '<none>') != w.get(k, '<none>'):
                return where_differs(g.get(k, '<none>'), w.get(k, '<none>'), path + '.' + str(k))
    if isinstance(w, list) and isinstance(g, list) and len(w) == len(g):
        for i, (a, b) in enumerate(zip(g, w)):
            if a != b:
                return where_differs(a, b, path + '[%d]' % i)
    return '%s is %r instead of %r' % (path.lstrip('.'), g, w)


def walk_task(ctx, kind):
    """walk_corgidrp: where the template comes from, and that every recipe is run once, in order."""
    W = World(ctx)
    R = W.R
    I = R.I
    rec = [W.lift({'name': 'r%d' % i}) for i in range(3)]
    seen, ran, opened = [], [], []

    def auto(I, st, args, kw, node):
        a = dict(zip(('filelist', 'outputdir', 'template'), args), **kw)
        seen.append((plain(st, a.get('filelist')), plain(st, a.get('outputdir')), plain(st, a.get('template', NONE))))
        return rec[0] if kind != 'several' else I.mklist(st, node, rec)

    def run(I, st, args, kw, node):
        ran.append(next((i for i, r in enumerate(rec) if args and args[0].objs == r.objs), UNKNOWN))
        return NONE

    def loaded(I, st, node, args, kw):
        o = I.one(st, args[0], 'opaque') if args else None
        p = o.extra[2][0] if o is not None and isinstance(o.extra, tuple) and o.extra[0] == 'file' and len(o.extra[2]) == 1 else '?'
        return I.models.lift(st, FakeNode(), {'loaded': p})
    I.hooks['corgidrp.walker.autogen_recipe'] = auto
    I.hooks['corgidrp.walker.run_recipe'] = run
    I.ext_hooks['json.load'] = loaded
    t = {'none': None, 'name': 'l1_to_l2b.json', 'path': '/some/where/t.json', 'object': {'name': 'mine'}, 'several': None}[kind]
    out = R.call('corgidrp.walker.walk_corgidrp', [W.lift(FILES), const(''), const(OUT)], {'template': W.lift(t)})
    d = os.path.join(ctx.repo.root, 'corgidrp', 'recipe_templates')
    want = {'none': None, 'several': None, 'name': {'loaded': os.path.join(d, 'l1_to_l2b.json')},
            'path': {'loaded': '/some/where/t.json'}, 'object': {'name': 'mine'}}[kind]
    bad = []
    if out is None:
        return [('stops', 'walk_corgidrp does not come to its end')], 1
    if seen != [(FILES, OUT, want)]:
        bad.append(('walk', 'the recipe is made from %s instead of %s' % (seen, [(FILES, OUT, want)])))
    n = 3 if kind == 'several' else 1
    if ran != list(range(n)):
        bad.append(('walk-run', 'of recipes 0 to %d those run are %s' % (n - 1, ran)))
    got = plain(R.st, out)
    if got != ([{'name': 'r%d' % i} for i in range(3)] if n == 3 else {'name': 'r0'}):
        bad.append(('walk-return', 'walk_corgidrp does not return what it ran but %s' % (got,)))
    return bad, 1


def check(ctx):
    from .c10 import caldb_labels
    labels = caldb_labels(ctx)
    recs = recipes(ctx)
    items, about = [], []

    def add(about_, *it):
        items.append(it)
        about.append(about_)
    cals = [c for c in data_classes(ctx) if c in labels]
    others = [c for c in data_classes(ctx) if c not in labels]
    for i, (n, r) in enumerate(recs):
        base = {'labels': labels}
        nst = len(r['steps'])
        add((n, 'run', ''), 'run', r, dict(base))
        add((n, 'run', 'without its optional calibrations'), 'run', r, dict(base, none=True, save_file=False))
        for c in ([cals[i % len(cals)]] if n[0] != '(' else cals + others):
            add((n, 'run', 'ending in a ' + c), 'run', r, dict(base, final=c))
            if n[0] == '(':
                add((n, 'run', 'ending in two of ' + c), 'run', r, dict(base, final=c, pair=True))
        for j in range(nst) if n == '(made)' else ({0, nst // 2} if nst > 1 else ()):
            if r['steps'][j]['name'].lower() != 'save':
                add((n, 'run', 'with step %d marked to be skipped' % j), 'run', r, dict(base, skip=[j]))
        cl = classes_in(r)
        for jit in ({'recipe_jit': True, 'global_jit': False}, {'global_jit': True}):
            add((n, 'run', 'with calibrations looked up as it runs'), 'run', r, dict(base, jit=True, **jit))
        for c in cl:
            for sk in (True, False):
                add((n, 'run', 'with no %s found as it runs%s' % (c, ', and steps skipped for that' if sk else '')), 'run', r,
                    dict(base, jit=True, recipe_jit=True, missing=(c,), skip_missing=sk))
                add((n, 'fill', 'with no %s found%s' % (c, ', and steps skipped for that' if sk else '')), 'fill', [r],
                    dict(missing=(c,), skip_missing=sk))
        for m in ({}, {'global_jit': True}, {'recipe_jit': True}, {'recipe_jit': False, 'global_jit': True}, {'chosen': True}):
            add((n, 'fill', ' '.join(sorted(m))), 'fill', [r], m)
    two = [r for n, r in recs][:2] + [recs[-2][1], recs[-2][1]]
    add(('(several)', 'fill', ''), 'fill', two, {'chosen': True})
    for k in ('none', 'name', 'path', 'object', 'several'):
        add(('template given as ' + k, 'walk', ''), 'walk', k)
    w = {'run': ctx.repo.loc(find(ctx, 'corgidrp.walker.run_recipe')), 'fill': ctx.repo.loc(find(ctx, 'corgidrp.walker.autogen_recipe')),
         'walk': ctx.repo.loc(find(ctx, 'corgidrp.walker.walk_corgidrp'))}
    what = {'run': 'running recipe', 'fill': 'making recipe', 'walk': 'walk_corgidrp,'}
    for it, r, a in zip(items, ctx.pmap(task, items), about):
        ok = list(results(ctx, [it], [r]))
        if not ok:
            raise CheckError('%s %s cannot be interpreted' % (what[a[1]], a[0]))
        bad, n = ok[0][1]
        ctx.count({'run': 'recipes_run', 'fill': 'recipes_filled_in', 'walk': 'walks'}[a[1]])
        ctx.count('actions_compared', n)
        for key, msg in bad:
            ctx.add('%s|%s' % (a[1], key), '%s %s %s: %s' % (what[a[1]], a[0], a[2], msg), w[a[1]])
    ctx.need('recipes_run', 250)
    ctx.need('recipes_filled_in', 250)
    ctx.explain.append('autogen_recipe, run_recipe, save_data and walk_corgidrp are interpreted with stand-ins for the steps, the '
                       'calibration database and the disk; the sequence of actions is compared with the one the recipe spells out.')
