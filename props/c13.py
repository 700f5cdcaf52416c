"""The calibration database records each product once and keeps its table on disk up to date."""
from .common import *
from .c10 import caldb_labels
from .c11 import plain, UNKNOWN
from .c12 import Desk, DB, ERA, mjd, label_of
from sa.core import *

ANSWER = {'Filepath': 'path', 'Type': 'label', 'MJD': 'SCTSRT', 'EXPTIME': 'EXPTIME', 'Files Used': 'DRPNFILE',
          'Date Created': 'DRPCTIME', 'Hash': 'hash', 'DRPVERSN': 'DRPVERSN', 'OBSNUM': 'OBSNUM', 'NAXIS1': 'columns',
          'NAXIS2': 'rows', 'OPMODE': 'OPMODE', 'EMGAIN_C': 'EMGAIN_C', 'EXCAMT': 'EXCAMT'}


def spec(D, cls, path, day=1, created=None, exptime=10., nfile=None, version='1.0', shape=(4, 5), obsnum=7, emgain=1.0, opmode='NONE',
         excamt=40.0):
    """A product, and the row it should have."""
    p = D.product(cls, path, day=day, created=created, exptime=exptime, nfile=nfile, version=version, shape=shape,
                  pri={'OBSNUM': obsnum}, EMGAIN_C=emgain, OPMODE=opmode, EXCAMT=excamt)
    return p, {'Filepath': path, 'Type': label_of(D.ctx, D, cls), 'MJD': mjd(ERA % day), 'EXPTIME': exptime, 'Files Used': nfile or 0,
               'Date Created': mjd(ERA % created) if created else -1, 'Hash': 'hash:' + os.path.basename(path),
               'DRPVERSN': version or '', 'OBSNUM': obsnum, 'NAXIS1': shape[-1], 'NAXIS2': shape[-2] if len(shape) > 1 else 0,
               'OPMODE': opmode, 'EMGAIN_C': emgain, 'EXCAMT': excamt}


def differs(got, want):
    """In words, how the rows on disk differ from the ones wanted (None when they do not; order does not matter)."""
    if got is None:
        return 'there is no database on disk'
    if any(UNKNOWN in r.values() for r in got):
        return UNKNOWN
    norm = lambda rs: sorted((sorted((k, str(float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else str(v))
                              for k, v in r.items() if k in ANSWER) for r in rs))
    g, w = norm(got), norm(want)
    if g == w:
        return None
    gp, wp = sorted(r.get('Filepath') for r in got), sorted(r['Filepath'] for r in want)
    if gp != wp:
        return 'it lists the files %s instead of %s' % (gp, wp)
    for a, b in zip(sorted(got, key=lambda r: r['Filepath']), sorted(want, key=lambda r: r['Filepath'])):
        for k in b:
            if norm([{k: a.get(k)}]) != norm([{k: b[k]}]):
                return '%s of %s is %r instead of %r' % (k, a['Filepath'], a.get(k), b[k])
    return 'the rows differ'


class Story:
    """A history of operations; checks what is on disk after each."""

    def __init__(self, ctx):
        self.D = Desk(ctx)
        self.bad = []
        self.n = 0
        self.unsure = 0

    def disk(self, what, want, path=DB):
        self.n += 1
        d = differs(self.D.read(path), want)
        if d == UNKNOWN:
            self.unsure += 1
        elif d is not None:
            self.bad.append((what.split(':')[0], '%s: %s' % (what, d)))

    def ok(self, what, r):
        if r[0] is None:
            self.bad.append((what.split(':')[0], '%s fails (%s)' % (what, r[1])))

    def fails(self, what, r):
        if r[0] is not None or set(r[1]) != {'ValueError'}:
            self.bad.append((what.split(':')[0], '%s does not raise ValueError (%s)' % (what, r[1])))


def rows_task(ctx, cls):
    """The row of a product of one class, with and without the optional header keywords."""
    out = []
    n = 0
    for i, kw in enumerate((dict(day=3, created=9, exptime=12.5, nfile=4, version='2.0', shape=(4, 5)),
                            dict(day=8, shape=(6,), version=None), dict(created=2, nfile=1, shape=(2, 3, 7)),
                            dict(emgain=33., opmode='SCREEN', excamt=-5., obsnum=99, exptime=0.5))):
        S = Story(ctx)
        D = S.D
        D.store([])
        db = D.open()
        p, w = spec(D, cls, '/cal/p%d.fits' % i, **kw)
        S.ok('adding a product', D.do(db, 'create_entry', p))
        S.disk('adding a product: a %s %s' % (cls, kw), [w])
        out += S.bad
        n += S.n
        if S.unsure:
            return [('?', '')], n
    return out, n


def history_task(ctx, classes):
    """Additions, replacements and removals by two users of one database."""
    S = Story(ctx)
    D = S.D
    a, b = classes
    pa, wa = spec(D, a, '/cal/a.fits', day=1, created=3)
    pb, wb = spec(D, b, '/cal/b.fits', day=2, created=2, exptime=3.)
    pc, wc = spec(D, a, '/cal/c.fits', day=4, nfile=3)
    pd, wd = spec(D, b, '/other/a.fits', day=5)
    pa2, wa2 = spec(D, b, '/cal/a.fits', day=7, created=9, exptime=99., emgain=5.)
    x = D.open()
    S.disk('opening a database that does not exist: it makes an empty one', [])
    y = D.open()
    S.ok('adding a product', D.do(x, 'create_entry', pa))
    S.disk('adding a product: the first', [wa])
    S.ok('adding a product', D.do(y, 'create_entry', pb))
    S.disk('adding a product: by another user of the database', [wa, wb])
    S.ok('adding a product', D.do(x, 'create_entry', pc))
    S.disk('adding a product: after another user has added one', [wa, wb, wc])
    S.ok('adding a product', D.do(y, 'create_entry', pd))
    S.disk('adding a product: with the name of another in a different folder', [wa, wb, wc, wd])
    S.ok('adding a product again', D.do(x, 'create_entry', pa2))
    S.disk('adding a product again: with other contents', [wa2, wb, wc, wd])
    S.ok('adding a product again', D.do(y, 'create_entry', pd))
    S.disk('adding a product again: unchanged', [wa2, wb, wc, wd])
    S.ok('removing a product', D.do(x, 'remove_entry', pb))
    S.disk('removing a product: one in the middle', [wa2, wc, wd])
    S.fails('removing a product that is not listed', D.do(y, 'remove_entry', pb))
    S.disk('removing a product that is not listed: nothing else goes', [wa2, wc, wd])
    S.ok('adding a product', D.do(y, 'create_entry', pb))
    S.disk('adding a product: that had been removed', [wa2, wb, wc, wd])
    z = D.open()
    S.disk('opening a database that exists: it is left as it is', [wa2, wb, wc, wd])
    S.ok('removing a product', D.do(z, 'remove_entry', pd))
    S.ok('removing a product', D.do(x, 'remove_entry', pa2))
    S.ok('removing a product', D.do(z, 'remove_entry', pc))
    S.disk('removing a product: three of four', [wb])
    S.ok('removing a product', D.do(y, 'remove_entry', pb))
    S.disk('removing a product: the last', [])
    S.ok('adding a product', D.do(x, 'create_entry', pa))
    S.disk('adding a product: to a database that has become empty', [wa])
    return (S.bad if not S.unsure else [('?', '')]), S.n


def memory_task(ctx, classes):
    """Without touching the disk; and in a database of one's own or the default one."""
    S = Story(ctx)
    D = S.D
    a, b = classes
    pa, wa = spec(D, a, '/cal/a.fits')
    pb, wb = spec(D, b, '/cal/b.fits')
    x = D.open()
    S.ok('adding a product', D.do(x, 'create_entry', pa))
    S.ok('adding a product in memory only', D.do(x, 'create_entry', pb, to_disk=False))
    S.disk('adding a product in memory only: the disk stays as it is', [wa])
    D.T.log.clear()
    D.loaded = []
    f = D.product('Image', '/in/sci.fits', day=1)
    S.ok('asking for a product held in memory only', D.do(x, 'get_calib', f, D.R.cls(b), to_disk=False))
    if D.loaded != [(b, '/cal/b.fits')]:
        S.bad.append(('memory', 'a product added in memory only is not found there'))
    S.ok('removing a product in memory only', D.do(x, 'remove_entry', pa, to_disk=False))
    S.disk('removing a product in memory only: the disk stays as it is', [wa])
    S.ok('saving', D.do(x, 'save'))
    S.disk('saving: writes what is in memory', [wb])
    u = D.open('/db/own.csv')
    pc, wc = spec(D, a, '/cal/c.fits', day=5)
    for p in (pa, pb, pc):
        S.ok('adding a product in memory only', D.do(u, 'create_entry', p, to_disk=False))
    for p in (pa, pc):
        S.ok('removing a product in memory only', D.do(u, 'remove_entry', p, to_disk=False))
    S.disk('removing a product in memory only: twice, the disk stays as it is', [], '/db/own.csv')
    S.ok('saving', D.do(u, 'save'))
    S.disk('saving: writes what is left in memory of three products', [wb], '/db/own.csv')
    y = D.open(None)
    S.disk('opening the default database: it is the configured one', [], '/default/caldb.csv')
    S.ok('adding a product', D.do(y, 'create_entry', pa))
    S.disk('adding a product: to the default database', [wa], '/default/caldb.csv')
    S.disk('adding a product: to the default database, and not to another one', [wb])
    return (S.bad if not S.unsure else [('?', '')]), S.n


def scan_task(ctx, classes, deep):
    """Scanning a folder for products."""
    S = Story(ctx)
    D = S.D
    a, b = classes
    made = {}
    wants = {}
    for p, c, kw in (('/cal/a.fits', a, {}), ('/cal/b.fits', b, dict(day=2)), ('/cal/sci.fits', 'Image', {}),
                     ('/cal/sub/c.fits', a, dict(day=3)), ('/cal/sub/deeper/d.fits', b, dict(day=4))):
        made[p], w = spec(D, c, p, **kw)
        if c != 'Image':
            wants[p] = w
    L = lambda v: D.R.I.models.lift(D.R.st, FakeNode(), v)

    def walk(I, st, node, args, kw):
        if plain(st, args[0]) != '/cal':
            return None
        return I.models.lift(st, FakeNode(), [('/cal', ['sub'], ['a.fits', 'notes.txt', 'b.fits', 'sci.fits', 'caldb.csv']),
                                              ('/cal/sub', ['deeper'], ['c.fits', 'fits']), ('/cal/sub/deeper', [], ['d.fits'])])

    def listdir(I, st, node, args, kw):
        d = {'/cal': ['a.fits', 'notes.txt', 'b.fits', 'sci.fits', 'caldb.csv', 'sub'], '/cal/sub': ['c.fits', 'fits', 'deeper'],
             '/cal/sub/deeper': ['d.fits']}.get(plain(st, args[0]))
        return None if d is None else I.models.lift(st, FakeNode(), d)
    D.R.I.ext_hooks['os.walk'] = walk
    D.R.I.ext_hooks['os.listdir'] = listdir
    def load(I, st, args, kw, node):
        p = plain(st, args[0])
        if p not in made and p != UNKNOWN:
            S.bad.append(('scanning', 'scanning a folder: %s is read as if it were a product' % p))
        return made.get(p, made['/cal/sci.fits'])
    D.R.I.hooks['corgidrp.data.autoload'] = load
    x = D.open()
    pe, we = spec(D, b, '/far/e.fits', day=6)
    S.ok('adding a product', D.do(x, 'create_entry', pe))
    for again in ('', ' a second time'):
        S.ok('scanning a folder', D.do(x, 'scan_dir_for_new_entries', const('/cal'), look_in_subfolders=deep))
        S.disk('scanning a folder: %s%s' % ('with its subfolders' if deep else 'without its subfolders', again),
               [we] + [w for p, w in wants.items() if deep or p.count('/') == 2])
    return (S.bad if not S.unsure else [('?', '')]), S.n


def init_task(ctx, have):
    """corgidrp.caldb.initialize: default products are made and registered when they are not there."""
    S = Story(ctx)
    D = S.D
    saved, scanned = [], []
    st = D.R.st
    m = st.heap[ctx.I.mods['corgidrp']]
    st.heap[ctx.I.mods['corgidrp']] = m.repl(attrs=dict(m.attrs, default_cal_dir=const('/default/cals')))
    names = ['DetectorParams_2023-11-01T00:00:00.000.fits', 'FpamFsamCal_2024-02-10T00:00:00.000.fits']
    for n in names[:have]:
        D.T.disk['/default/cals/' + n] = ((), [])

    def saver(c):
        def f(I, st, args, kw, node):
            a = dict(zip(('self', 'filedir', 'filename'), args), **kw)
            saved.append((c, plain(st, a.get('filedir', NONE))))
            return NONE
        return f

    def maker(c):
        return lambda I, st, args, kw, node: I.new(st, node, 'opaque', k=('mk', c), extra='made:' + c)
    classes = ('DetectorParams', 'FpamFsamCal')
    for c in classes:
        D.R.I.hooks['corgidrp.data.' + c] = maker(c)
    base = D.R.I.opaque_attr
    D.R.I.opaque_attr = lambda o, name: obj(saves[o.extra[5:]]) if isinstance(o.extra, str) and o.extra.startswith('made:') and \
        name == 'save' else base(o, name)
    saves = {}

    class L:
        @staticmethod
        def on_opaque(I, st, oid, o, name, args, kw, node):
            if isinstance(o.extra, str) and o.extra.startswith('made:') and name == 'save':
                a = dict(zip(('filedir', 'filename'), args), **kw)
                saved.append((o.extra[5:], plain(st, a.get('filedir', NONE))))
    D.R.I.opaque_attr = base
    D.R.I.listeners.append(L())

    def scan(I, st, args, kw, node):
        scanned.append(plain(st, args[1] if len(args) > 1 else kw.get('filedir')))
        return NONE
    D.R.I.hooks['corgidrp.caldb.CalDB.scan_dir_for_new_entries'] = scan
    v = D.R.call('corgidrp.caldb.initialize', [])
    if v is None:
        return [('initialize', 'initialize does not come to its end')], 1
    want = [(c, '/default/cals') for c in classes[have:]]
    if sorted(saved) != sorted(want):
        S.bad.append(('initialize', 'with %d of the default products there, those made are %s instead of %s' % (have, saved, want)))
    if (scanned != ['/default/cals']) if have < 2 else scanned:
        S.bad.append(('initialize', 'with %d of the default products there, the folders scanned are %s' % (have, scanned)))
    return S.bad, 1


def task(ctx, it):
    return {'rows': rows_task, 'history': history_task, 'memory': memory_task, 'scan': scan_task, 'init': init_task}[it[0]](ctx, *it[1:])


def check(ctx):
    fn = find(ctx, 'corgidrp.caldb.CalDB.create_entry')
    if fn is None:
        raise CheckError('CalDB.create_entry is gone')
    labels = sorted(caldb_labels(ctx))
    pairs = [(labels[i], labels[(i + k) % len(labels)]) for i in range(len(labels)) for k in (1, 4)]
    items = [('rows', c) for c in labels] + [('init', n) for n in (0, 1, 2)]
    for p in pairs:
        items += [('history', p), ('memory', p), ('scan', p, True), ('scan', p, False)]
    unsure = []
    for it, r in zip(items, ctx.pmap(task, items)):
        ok = list(results(ctx, [it], [r]))
        if not ok:
            raise CheckError('%s cannot be interpreted (%s)' % (it, r[1:]))
        bad, n = ok[0][1]
        ctx.count('states_of_the_table', n)
        ctx.count('histories')
        for key, msg in bad:
            if key == UNKNOWN:
                unsure.append(it)
                continue
            name = {'removing': 'remove_entry', 'scanning': 'scan_dir_for_new_entries', 'opening': '__init__', 'saving': 'save'}.get(
                key.split(' ')[0], 'create_entry')
            f = find(ctx, 'corgidrp.caldb.initialize' if key == 'initialize' else 'corgidrp.caldb.CalDB.' + name)
            ctx.add(key, 'calibration database: %s' % msg, ctx.repo.loc(f or fn))
    if unsure and not ctx.findings:
        raise CheckError('what is written to the database is not known for %s' % (unsure[0],))
    ctx.need('states_of_the_table', 600)
    ctx.explain.append('The methods of CalDB are interpreted over a relational model of the table and its file: histories of additions, '
                       'replacements, removals and scans by two users, compared after each operation with the rows they call for.')
