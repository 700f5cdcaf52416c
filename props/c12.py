"""The calibration database hands out the right calibration file."""
import datetime
import itertools
from .common import *
from .c10 import caldb_labels
from .c11 import plain, VALUE_ERROR, UNKNOWN
from sa.core import *
from sa.tables import Tables

DB = '/cal/caldb.csv'
ERA = '2024-03-%02dT00:00:00'


def mjd(text):
    t = datetime.datetime.fromisoformat(text)
    return (t - datetime.datetime(1858, 11, 17)).total_seconds() / 86400.


class Desk:
    """A calibration database on a modelled disk, with stand-ins for reading and writing products."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.labels = caldb_labels(ctx)
        R = self.R = Run(ctx.I)
        I = R.I
        I.tables = self.T = Tables(I)
        self.loaded = []
        for c in data_classes(ctx):
            I.hooks['corgidrp.data.' + c] = self.loader(c)
            I.hooks['corgidrp.data.%s.get_hash' % c] = lambda I, st, args, kw, node: \
                const('hash:%s' % self.name_of(st, args[0]))
        I.ext_hooks['astropy.time.Time'] = self.time
        I.opaque_attr = lambda o, name: const(o.extra[1]) if isinstance(o.extra, tuple) and o.extra and o.extra[0] == 'time' and \
            name == 'mjd' else None
        m = R.st.heap[I.mods['corgidrp']]
        R.st.heap[I.mods['corgidrp']] = m.repl(attrs=dict(m.attrs, caldb_filepath=const('/default/caldb.csv')))
        self.columns = plain(R.st, R.st.heap[I.mods['corgidrp.caldb']].attrs['column_names'])
        if not isinstance(self.columns, list):
            raise CheckError('the columns of the calibration database are not known')

    def time(self, I, st, node, args, kw):
        a = [x for x in args if isinstance(x, AV)]
        s = a[0].single() if a else None
        if s is not None and isinstance(s[0], str):
            try:
                return I.new(st, node, 'opaque', k=('tm', s[0]), extra=('time', mjd(s[0])))
            except ValueError:
                return None
        return None

    def loader(self, cls):
        def load(I, st, args, kw, node):
            p = plain(st, args[0]) if len(args) == 1 and not kw else None
            if isinstance(p, str) and p[:1] == '/':
                self.loaded.append((cls, p))
                return I.new(st, node, 'opaque', k=('ld', cls, p), extra='%s(%s)' % (cls, p))
            if p == UNKNOWN and getattr(node, '_mod', '') == 'corgidrp.caldb':
                self.loaded.append((cls, UNKNOWN))
            return None
        return load

    def name_of(self, st, v):
        o = self.R.I.one(st, v, 'inst')
        return plain(st, o.attrs.get('filename', NONE)) if o is not None else UNKNOWN

    def product(self, cls, path, day=1, created=None, exptime=10., nfile=None, version='1.0', shape=(4, 5), pri=None, **ext):
        """A product of a class, as it would be after saving it at a path."""
        R = self.R
        h = dict({'SCTSRT': ERA % day, 'EXPTIME': exptime, 'OPMODE': 'NONE', 'EMGAIN_C': 1.0, 'EXCAMT': 40.0}, **ext)
        absent = []
        for k, v in (('DRPCTIME', created and ERA % created), ('DRPNFILE', nfile), ('DRPVERSN', version)):
            if v is None:
                absent.append(k)
            else:
                h[k] = v
        with R.quiet():
            im = R.image(os.path.basename(path), shape=shape, ext=h, absent_ext=absent, pri=dict({'OBSNUM': 7}, **(pri or {})),
                         openhdr=False)
            for x in im.objs:
                o = R.st.heap[x]
                hid = next(iter(o.attrs['ext_hdr'].objs))
                ho = R.st.heap[hid]
                items = {k: v for k, v in ho.items.items() if k not in absent}
                items.update({k: (const(v), 'y') for k, v in h.items()})
                R.st.heap[hid] = ho.repl(items=items)
                d, _, b = path.rpartition('/')
                R.st.heap[x] = o.repl(cls=next(iter(R.cls(cls).objs)), attrs=dict(o.attrs, filename=const(b), filedir=const(d)))
        return im

    def row(self, **kw):
        d = {c: 0 for c in self.columns}
        d.update({'Filepath': '/x.fits', 'Type': 'Dark', 'Hash': 'h', 'DRPVERSN': '1', 'OPMODE': 'NONE'})
        d.update(kw)
        return tuple(const(d[c]) for c in self.columns)

    def store(self, rows, path=DB):
        self.T.disk[path] = (tuple(self.columns), [self.row(**r) for r in rows])

    def read(self, path=DB):
        """What is on the modelled disk: rows as dictionaries, or None."""
        if path not in self.T.disk:
            return None
        cols, rows = self.T.disk[path]
        return [dict(zip(cols, [plain(self.R.st, x) for x in r])) for r in rows]

    def open(self, path=DB):
        return self.R.call('corgidrp.caldb.CalDB', [const(path)] if path else [])

    def do(self, db, meth, *args, **kw):
        """(value or None, kinds of exceptions raised)"""
        R = self.R
        seen = []

        class L:
            @staticmethod
            def on_uncaught(I, st, mro, node, av):
                seen.append(mro)
        f = R.attr(db, meth)
        if f is None:
            return None, ['AttributeError']
        R.I.listeners.append(L)
        v = R.call(f, list(args), {k: x if isinstance(x, AV) else const(x) for k, x in kw.items()})
        R.I.listeners.remove(L)
        return v, [m[0] for m in seen]


def label_of(ctx, D, cls):
    """The label a class has in the database."""
    st = D.R.st
    v = st.heap[ctx.I.mods['corgidrp.caldb']].attrs.get('labels')
    for x in v.objs:
        for k, e in (st.heap[x].items or {}).items():
            t = k[1] if isinstance(k, tuple) else k
            o = st.heap.get(getattr(t, 'v', t)) if not isinstance(t, str) else None
            if o is not None and o.kind == 'class' and o.extra.name == cls:
                return plain(st, e[0])
    return None


ROWS = [dict(same=s, exp=e, near=n, new=w) for s in (True, False) for e in (True, False) for n in (-2, 1) for w in (0, 1)]


def wanted(cls, rows, frame):
    """Indices of the rows that may be chosen (several only when they tie)."""
    ok = [i for i, r in enumerate(rows) if r['same'] and (cls != 'Dark' or not frame or r['exp'])]
    if not ok:
        return []
    if frame:
        best = min(abs(rows[i]['mjd'] - 10.) for i in ok)
        return [i for i in ok if abs(rows[i]['mjd'] - 10.) == best]
    best = max(rows[i]['made'] for i in ok)
    return [i for i in ok if rows[i]['made'] == best]


def tables(kinds):
    """Tables of up to three rows; with pairwise comparisons only, any failure shows in one of them."""
    # distances in time from the frame (day 10) and creation dates, all different, in every order
    for n in (0, 1, 2, 3):
        for same in itertools.product((True, False), repeat=n):
            for exp in itertools.product((True, False), repeat=n) if kinds == 'Dark' else [tuple(i % 2 == 0 for i in range(n))]:
                for mj in itertools.permutations((9.5, 11., 7.)[:n]):
                    for made in ([(1., 2., 3.)[:n], (3., 2., 1.)[:n], (2., 3., 1.)[:n]] if n > 1 else [(1.,)[:n]]):
                        yield [dict(same=s, exp=e, mjd=m, made=w) for s, e, m, w in zip(same, exp, mj, made)]


def task(ctx, it):
    if it[0] == 'pairs':
        return pairs(ctx, it[1])
    _, cls, frame, rows, stale = it
    D = Desk(ctx)
    lab = label_of(ctx, D, cls)
    other = next(l for l in ('KGain', 'Dark') if l != lab)
    t = [dict(Filepath='/cal/f%d.fits' % i, Type=lab if r['same'] else other, EXPTIME=10. if r['exp'] else 12.,
              MJD=mjd('2024-03-10T00:00:00') + r['mjd'] - 10.,
              **{'Date Created': mjd('2024-04-01T00:00:00') + r['made']}) for i, r in enumerate(rows)]
    D.store([] if stale else t)
    db = D.open()
    if stale:
        D.store(t)          # another process has added the rows since
    f = D.product('Image', '/in/sci.fits', day=10) if frame else NONE
    v, exc = D.do(db, 'get_calib', f, D.R.cls(cls))
    return {'got': D.loaded, 'value': plain(D.R.st, v) if v is not None else None, 'exc': exc,
            'disk': D.read() == [dict(zip(D.columns, [plain(D.R.st, x) for x in D.row(**r)])) for r in t]}


def pairs(ctx, cls):
    """A product of one class is registered: which classes can then be asked for?"""
    D = Desk(ctx)
    p = D.product(cls, '/cal/one.fits', day=9, created=20, nfile=2)
    D.store([])
    db = D.open()
    v, exc = D.do(db, 'create_entry', p)
    if v is None:
        return {'added': False, 'exc': exc}
    out = {}
    for c in sorted(D.labels):
        D.loaded = []
        f = D.product('Image', '/in/sci.fits', day=10)
        v, exc = D.do(db, 'get_calib', f, D.R.cls(c))
        out[c] = (list(D.loaded), v is not None, exc)
    D.loaded = []
    v, exc = D.do(db, 'get_calib', f, D.R.cls('Image'))
    out['Image'] = (list(D.loaded), v is not None, exc)
    return {'added': True, 'found': out}


def check(ctx):
    fn = find(ctx, 'corgidrp.caldb.CalDB.get_calib')
    if fn is None:
        raise CheckError('CalDB.get_calib is gone')
    where = ctx.repo.loc(fn)
    labels = sorted(caldb_labels(ctx))
    items = [('pairs', c) for c in labels]
    thorough = ctx.tier == 'thorough'
    for cls in labels:
        for frame in (True, False):
            for i, rows in enumerate(tables(cls)):
                full = cls in ('Dark', 'KGain', 'FlatField') or thorough
                if full or len(rows) < 2 or i % 7 == 0:
                    items.append(('one', cls, frame, rows, False))
                    if i % 5 == 0:
                        items.append(('one', cls, frame, rows, True))
    groups = [items[i:i + 40] for i in range(0, len(items), 40)]
    out = []
    for g, r in zip(groups, ctx.pmap(group, groups)):
        ok = list(results(ctx, [str(g[0])[:60]], [r]))
        if not ok:
            raise CheckError('the calibration database cannot be interpreted (%s)' % (r[1:],))
        out += ok[0][1]
    unsure = [it for it, r in zip(items, out) if ('?' in [p for _, p in r.get('got', ())]) or
              any(p == '?' for x in r.get('found', {}).values() for _, p in x[0])]
    for it, r in zip(items, out):
        cls = it[1]
        if it in unsure:
            continue
        if it[0] == 'pairs':
            ctx.count('products_registered')
            if not r['added']:
                ctx.add('pairs|%s|add' % cls, 'a %s cannot be added to the calibration database' % cls, where)
                continue
            for c, (loaded, found, exc) in r['found'].items():
                ctx.count('requests')
                if c == cls and loaded != [(cls, '/cal/one.fits')]:
                    ctx.add('pairs|%s|lost' % cls, 'a %s in the calibration database is not found again (%s)' % (cls, loaded or exc), where)
                if c != cls and (loaded or found or set(exc) != {'ValueError'}):
                    ctx.add('pairs|%s|%s' % (cls, c), 'a request for a %s when there is only a %s gives %s' % (c, cls, loaded or exc), where)
            continue
        _, cls, frame, rows, stale = it
        ctx.count('requests')
        want = wanted(cls, rows, frame)
        what = 'a %s for %s' % (cls, 'a frame' if frame else 'no frame in particular')
        how = 'chosen among %s%s' % ([dict(r, file=i) for i, r in enumerate(rows)], ' added by another process' if stale else '')
        if not want:
            if r['got'] or r['value'] is not None or set(r['exc']) != {'ValueError'}:
                ctx.add('%s|%s|none' % (cls, frame), '%s, %s: none is suitable, and the result is %s instead of ValueError'
                        % (what, how, r['got'] or r['exc']), where)
            continue
        if len(r['got']) != 1 or r['got'][0] not in [(cls, '/cal/f%d.fits' % i) for i in want] or \
                r['value'] != '<%s(%s)>' % r['got'][0]:
            ctx.add('%s|%s' % (cls, frame), '%s, %s: %s is loaded instead of file %s' % (what, how, r['got'] or r['exc'],
                                                                                         ' or '.join(map(str, want))), where)
        if not r['disk']:
            ctx.add('%s|changed' % cls, 'asking for %s changes the database on disk' % what, where)
    if unsure and not ctx.findings:
        raise CheckError('which file is chosen is not known for %d tables, e.g. %s' % (len(unsure), unsure[0]))
    ctx.need('requests', 1000)
    ctx.need('products_registered', 10)
    ctx.explain.append('CalDB.get_calib is interpreted over a relational model of its table: every table of up to three rows that can '
                       'differ in type, exposure time, order in time and order of creation, for every type of calibration.')


def group(ctx, its):
    return [task(ctx, it) for it in its]
